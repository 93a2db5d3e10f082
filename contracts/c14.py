from common import *

CO = "conductivity.Conductivity."
S_ = "scattering.Scattering."


class Settings:
    """current settings of a conductivity calculation, with fresh symbols on demand"""

    def __init__(self, h, cold, models=("isotropic", "cos2phi")):
        self.h, self.n = h, 0
        self.cold = cold
        self.models = tuple(models)
        self.vals = scattering_values(h)
        self.B = [h.real("Bamp"), h.real("Btheta"), h.real("Bphi")]
        self.T = Num(ZERO) if cold else h.real("T0", pos=True)
        self.N, self.cut, self.Nt = h.nat("Ne", 2), self.fraction(), h.nat("Nt", 2)
        self.band = {}

    def tag(self):
        self.n += 1
        return "_%d" % self.n

    def fraction(self):
        c = self.h.real("cut" + self.tag(), pos=True)
        self.h.assume(c < 1)
        return c

    def build(self, band, cls=None):
        h = self.h
        C = cls or h.mod("conductivity").Conductivity
        self.given = (VList(self.models), VDict(self.vals))
        return C(bandObject=band, Bamp=self.B[0], Btheta=self.B[1], Bphi=self.B[2], T=self.T, scattering_models=self.given[0],
                 scattering_params=self.given[1], N_time=self.Nt, N_epsilon=self.N, dfdE_cut_percent=self.cut)

    def apply(self, op, cond):
        h = self.h
        if op == "run":
            cond.runTransport()
        elif op == "amp":
            self.B[0] = cond.Bamp = h.real("Bamp" + self.tag())
        elif op == "amp0":
            cond.Bamp = Num(ZERO)
            self.B[0] = Num(ZERO)
        elif op == "amp+":
            self.B[0] = cond.Bamp = h.real("Bamp" + self.tag(), pos=True)
        elif op == "theta":
            self.B[1] = cond.Btheta = h.real("Btheta" + self.tag())
        elif op == "phi":
            self.B[2] = cond.Bphi = h.real("Bphi" + self.tag())
        elif op == "T":
            self.T = cond.T = h.real("T" + self.tag(), pos=True)
        elif op == "T0":
            cond.T = Num(ZERO)
            self.T = Num(ZERO)
        elif op == "N":
            self.N = cond.N_epsilon = h.nat("Ne" + self.tag(), 2)
        elif op == "cut":
            self.cut = self.fraction()
            cond.dfdE_cut_percent = self.cut
        elif op == "Nt":
            self.Nt = cond.N_time = h.nat("Nt" + self.tag(), 2)
        elif op == "rates":
            self.vals = scattering_values(h, self.tag())
            cond.scattering_params = VDict(self.vals)
        elif op == "models":
            self.models = ("sin2phi", "isotropic") if "cos2phi" in self.models else ("isotropic", "cos2phi")
            cond.scattering_models = VList(self.models)
        elif op == "band":
            v = h.real("par_new" + self.tag())
            cond.bandObject["mu"] = v
            cond.bandObject.runBandStructure(printDoping=False)
            self.band["mu"] = v
        else:
            raise KeyError(op)


COLD = ("run amp", "theta run phi run amp", "Nt run Nt", "rates run rates", "models run models", "run T run T0", "band run band",
        "amp0 run amp+", "amp+ run amp0", "run run run", "T run N cut T0 run", "run phi theta run theta phi")
WARM = ("run", "T0 run T", "run rates models", "run band", "amp0 run amp+", "run Nt N")


def abstract_band(h, tag=""):
    band = mkband(h, cls=abstract_band_class(h), tag=tag)
    set_res(h, band)
    band.runBandStructure(printDoping=False)
    return band


def fresh_result(h, st, name="fresh"):
    """tensors of a new object built with the current settings on a new band"""
    band = abstract_band(h)
    for k, v in st.band.items():
        band[k] = v
    if st.band:
        band.runBandStructure(printDoping=False)
    c = st.build(band)
    c.runTransport()
    return c


def same_tensors(h, name, got, want, cold):
    for f in ("sigma",) if cold else ("sigma", "alpha", "beta"):
        h.eq("%s: %s" % (name, f), getattr(got, f), getattr(want, f))


@contract("C14", [CO + "runTransport", CO + "chambers_func", CO + "reset_time", CO + "solve_movement", CO + "t_o_tau_func",
                  S_ + "_set_scattering_params", S_ + "tau_tot_func"],
          variants=[dict(hist=x, cold=True) for x in COLD] + [dict(hist=x, cold=False) for x in WARM],
          bounded="listed histories of up to seven operations, run to the end (any_history covers every history by induction)")
def history_independence(h, hist, cold):
    """whatever was run or set before, a run gives the tensors of a new object with the current settings"""
    st = Settings(h, cold)
    band = abstract_band(h)
    cond = st.build(band)
    for op in hist.split():
        st.apply(op, cond)
    cond.runTransport()
    same_tensors(h, "after the history", cond, fresh_result(h, st), not st.T.p.t)


# ------------------------------------------------------------------ any history, by induction
# what runs leave behind; everything else an object holds is settings
LEFT = ("time_max", "dtime", "time_array", "dtime_array", "gamma_tot_max", "gamma_tot_min", "gamma_tot", "phi", "kft", "vft", "tau_tot",
        "t_o_tau", "v_product", "sigma", "alpha", "beta", "omegac_tau", "dos_k_epsilon", "dkf_epsilon", "kft_epsilon", "vft_epsilon",
        "t_o_tau_epsilon")
OPS = ("", "run", "amp", "amp0", "amp+", "theta", "phi", "T", "T0", "N", "cut", "Nt", "rates", "models", "band")


def left_behind(h, cond, cold, first):
    """arbitrary values in every field a run leaves behind (first: the time grid is not there yet)"""
    nk, nt, k = h.nat("nk_left", 1), h.nat("nt_left", 1), h.nat("k_left", 1)
    arrs = {"kft": (3, nk, nt), "vft": (3, nk, nt), "tau_tot": (nk, nt), "t_o_tau": (nk, nt), "v_product": (3, 3, nk), "sigma": (3, 3),
            "alpha": (3, 3), "beta": (3, 3), "gamma_tot": (k,), "phi": (k,), "time_array": (nt,), "dtime_array": (nt,)}
    for f, sh in arrs.items():
        setattr(cond, f, h.arr(f + "_left", *sh))
    for f in ("gamma_tot_max", "gamma_tot_min", "omegac_tau"):
        setattr(cond, f, h.real(f + "_left"))
    cond.time_max, cond.dtime = h.real("time_max_left", pos=True), h.real("dtime_left")
    if first:
        cond.time_max = cond.dtime = cond.time_array = cond.dtime_array = None
    e = h.real("epsilon_left")
    for f, sh in (("dos_k_epsilon", (nk,)), ("dkf_epsilon", (nk,)), ("kft_epsilon", (3, nk, nt)), ("vft_epsilon", (3, nk, nt)), ("t_o_tau_epsilon", (nk, nt))):
        setattr(cond, f, VDict({e: h.arr(f + "_left", *sh)}))
    if cold:
        cond.epsilon_array = h.arr("epsilon_array_left", k)         # energies are settings of a finite temperature only


def settings_terms(o, cold):
    return state_terms(o, LEFT + (("epsilon_array",) if cold else ()))


@contract("C14", [CO + "runTransport", CO + "_set_Bamp", CO + "_set_Btheta", CO + "_set_Bphi", CO + "_set_T", CO + "_set_N_epsilon",
                  CO + "_set_dfdE_cut_percent", CO + "_set_N_time", S_ + "_set_scattering_params", CO + "chambers_func", CO + "reset_time",
                  CO + "solve_movement", CO + "t_o_tau_func", S_ + "tau_tot_func"],
          variants=[dict(op=o, cold=c, first=f) for o in OPS for c in (True, False) for f in (False, True) if not f or o in ("", "Nt")])
def any_history(h, op, cold, first):
    """Induction over histories. Invariant: an object's settings are those a new object with the current settings has;
    what runs left behind is arbitrary. The constructor establishes it, every operation preserves it, and a run from
    any such state gives the tensors of a new object."""
    st = Settings(h, cold)
    cond = st.build(abstract_band(h))
    fields = set(cond.__dict__)
    left_behind(h, cond, cold, first)
    if op:
        st.apply(op, cond)
    cold = not st.T.p.t
    band = abstract_band(h)
    for k, v in st.band.items():
        band[k] = v
    if st.band:
        band.runBandStructure(printDoping=False)
    new = st.build(band)
    if not set(cond.__dict__) <= fields | set(LEFT) | {"epsilon_array"}:
        raise Unsupported("fields the invariant says nothing about: %s" % sorted(set(cond.__dict__) - fields - set(LEFT)))
    same_state(h, "settings after %s" % (op or "nothing"), settings_terms(new, cold), settings_terms(cond, cold))
    same_state(h, "band after %s" % (op or "nothing"), state_terms(new.bandObject), state_terms(cond.bandObject))
    if not op or op == "run":
        new.runTransport()
        cond.runTransport()
        same_tensors(h, "run from any state", cond, new, cold)


@contract("C14", [CO + "runTransport"], variants=[dict(cold=True), dict(cold=False)])
def rerun(h, cold):
    """running twice with the same settings gives the same tensors"""
    st = Settings(h, cold)
    band = abstract_band(h)
    cond = st.build(band)
    cond.runTransport()
    first = {f: copy_arr(getattr(cond, f)) for f in (("sigma",) if cold else ("sigma", "alpha", "beta"))}
    cond.runTransport()
    for f, v in first.items():
        h.eq("second run: " + f, getattr(cond, f), v)


# ------------------------------------------------------------------ isolation from the caller
def comparable(v):
    if isinstance(v, dict):
        return all(comparable(x) for x in v.values())
    if isinstance(v, (list, tuple)) and not isinstance(v, SymSeq):
        return all(comparable(x) for x in v)
    return v is None or isinstance(v, (Num, SBool, int, float, Arr, SymSeq, str, bool))


def state_terms(o, but=()):
    """field -> terms of everything an object holds; of other kinds of values (expressions, compiled functions) the
    objects themselves"""
    out = {}
    for k, v in sorted(o.__dict__.items()):
        if k == "_spec" or k in but:
            continue
        if not comparable(v):
            out[k] = ("object", v)
            continue
        try:
            out[k] = ("terms", (type(v).__name__, tuple(value_terms(v)), struct(v)))
        except Unsupported:
            out[k] = ("object", v)
    return out


def struct(v):
    if isinstance(v, dict):
        return tuple((k if isinstance(k, str) else "?", struct(x)) for k, x in sorted(dict.items(v), key=lambda t: str(t[0])))
    if isinstance(v, (list, tuple)) and not getattr(v, "segs", None):
        return tuple(struct(x) for x in v)
    if isinstance(v, (str, bool, type(None))):
        return v
    if isinstance(v, Arr):
        return len(v.shape_)
    return type(v).__name__ if not isnum(v) else "number"


def same_object(x, y):
    if x is y:
        return True
    if isinstance(x, libs.AbstractExpr) and isinstance(y, libs.AbstractExpr):
        return x.model == y.model and x.der == y.der and prover.zero(poly(x.coef) - poly(y.coef))
    if isinstance(x, (list, tuple)) and type(x) is type(y) and len(x) == len(y):
        return all(same_object(p, q) for p, q in zip(x, y))
    return None


def same_state(h, name, a, b):
    h.check(name + ": same fields", set(a) == set(b), "fields %s" % sorted(set(a) ^ set(b)))
    for k in sorted(set(a) & set(b)):
        (ka, x), (kb, y) = a[k], b[k]
        nm = name + ": field %s unchanged" % k
        if ka == kb == "object":
            if same_object(x, y):
                h.check(nm, True)
            # otherwise a rebuilt expression or function: what it computes is the business of C01
        elif ka != kb:
            h.check(nm, False, "%s became %s" % (str(x)[:300], str(y)[:300]))
        else:
            ok = x[0] == y[0] and x[2] == y[2] and len(x[1]) == len(y[1]) and all(prover.zero(p - q) for p, q in zip(align(x[1]), align(y[1])))
            h.check(nm, ok, "%s became %s" % (str(x)[:300], str(y)[:300]))


def align(ts):
    """terms with their generic indices renamed canonically"""
    out = []
    for p in ts:
        mp = {}
        for q, ai in enumerate(sorted(x for x in p.free if T._atom_list[x].kind == "v" and "~" in T._atom_list[x].a[0])):
            mp[ai] = V("canon%d" % q, integer=True, nonneg=True)
        out.append(subst(p, mp) if mp else p)
    return out


MUTATE = ("params item", "params new", "params clear", "models append", "models clear", "band item", "band setter", "band surface",
          "band fields", "band resolution", "everything")


def mutate(h, what, band, st):
    models, params = st.given
    new = lambda n: h.real("intruder_" + n)
    if what in ("params item", "everything"):
        for k in list(params):
            params[k] = new(k)
    if what == "params new":
        params["another"] = new("another")
    if what == "params clear":
        params.clear()
    if what in ("models append", "everything"):
        models.append("sin2phi")
    if what == "models clear":
        models.clear()
    if what in ("band surface", "everything"):
        for f in ("kf", "vf"):
            getattr(band, f)[:, :] = new(f)
        for f in ("dkf", "dos_k"):
            getattr(band, f)[:] = new(f)
    if what in ("band item", "everything"):
        band["mu"] = new("mu")
    if what == "band setter":
        band.energy_scale = new("escale")
        band.band_params = VDict({p: new(p) for p in band._spec.params})
    if what in ("band fields", "everything"):
        band.a, band.b, band.c = new("a"), new("b"), new("c")
        band.number_of_bz = new("nbz")
    if what == "band resolution":
        for q in range(3):
            band.resolution[q] = new("res%d" % q)


@contract("C14", [CO + "__init__", S_ + "__init__", CO + "runTransport"], variants=[dict(what=m, when=w) for m in MUTATE for w in ("before the run", "between runs")])
def caller_changes_do_not_matter(h, what, when):
    """changing the band, dictionary or list passed in does not affect the calculation"""
    st = Settings(h, True)
    band = mkband(h)
    set_res(h, band)
    fermi_surface(h, band)
    cond = st.build(band)
    other = mkband(h)
    set_res(h, other)
    fermi_surface(h, other)
    given = st.given
    ref = st.build(other)
    st.given = given
    ref.runTransport()
    if when == "between runs":
        cond.runTransport()
    mutate(h, what, band, st)
    cond.runTransport()
    same_tensors(h, "tensors", cond, ref, True)
    h.eq("filling factor of the own band", cond.bandObject.number_of_bz, ref.bandObject.number_of_bz)
    for k, v in st.vals.items():
        h.eq("own scattering parameters", cond.scattering_params[k], v)


@contract("C14", [CO + "__init__", S_ + "__init__", CO + "runTransport"], variants=[dict(cold=c, hist=x) for c in (True, False)
          for x in ("", "run", "run amp run", "rates run", "models run", "band run", "T run", "run T0 run")])
def caller_is_not_touched(h, cold, hist):
    """building, setting and running leave the caller's band, dictionary and list as they were"""
    st = Settings(h, cold)
    band = abstract_band(h)
    before = state_terms(band)
    cond = st.build(band)
    given = st.given
    gb = (list(given[0]), dict(dict.items(given[1])))
    for op in hist.split():
        st.apply(op, cond)
    same_state(h, "band", before, state_terms(band))
    h.check("list of models unchanged", list(given[0]) == gb[0], str(given[0]))
    h.check("dictionary unchanged", dict(dict.items(given[1])).keys() == gb[1].keys() and all(dict.__getitem__(given[1], k) is v for k, v in gb[1].items()), str(given[1])[:300])


@contract("C14", ["bandstructure.BandStructure.__init__", CO + "__init__"])
def bands_are_separate(h):
    """the calculation's band is its own: a run of one calculation does not reach another built on the same band"""
    st = Settings(h, True)
    band = abstract_band(h)
    one = st.build(band)
    two = st.build(band)
    ref = st.build(band)
    ref.runTransport()
    one.runTransport()
    one.Bamp = h.real("Bother")
    one.scattering_params = VDict(scattering_values(h, "_other"))
    one.bandObject["mu"] = h.real("mu_other")
    one.bandObject.runBandStructure(printDoping=False)
    one.runTransport()
    two.runTransport()
    same_tensors(h, "other calculation", two, ref, True)
