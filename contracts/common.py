"""Shared symbolic preconditions and reference formulas (written from the property statements, not from the code)."""
from harness import *
from harness import Num, SBool
from terms import *
import libs
from libs import NP as np, C_hbar as HBAR, C_e as QE, C_kB as KB, C_me as ME
import engine
from engine import VList, VDict

PI_ = Num(PI())
ANG = Num(P(Fr("1e-10")))
PS = Num(P(Fr("1e-12")))
MEV = QE * Num(P(Fr("1e-3")))          # J
KB_MEV = KB / MEV                      # meV / K
CHAMBERS = 2 * QE ** 2 / (2 * PI_) ** 3 * PS / ANG ** 2
VUNIT = MEV / HBAR * ANG               # (meV A) -> m/s


def declare_model(text, names, zero=(), const=()):
    libs.MODELS[text] = tuple(names)
    for v in const:
        libs.CONST_DERIV.add((text, v))
    for v in zero:
        libs.ZERO_DERIV.add((text, v))


def band_values(h, params, tag=""):
    return {p: h.real("par_%s%s" % (p, tag)) for p in params}


def mkband(h, params=("mu", "t"), order=None, model=None, tag="", zero=(), const=(), tetra=False, res=None, cls=None, **kw):
    """a band built by the real constructor on symbolic inputs"""
    B = h.mod("bandstructure").BandStructure
    model = model or ("E" + tag)
    order = list(order or params)
    declare_model(model, ("kx", "ky", "kz", "a", "b", "c") + tuple(sorted(params)), zero, const)
    a = h.real("a" + tag, pos=True)
    b = a if tetra else h.real("b" + tag, pos=True)
    c = h.real("c" + tag, pos=True)
    if not tetra and tetra is not None:
        pass
    vals = band_values(h, params, tag)
    args = dict(a=a, b=b, c=c, energy_scale=h.real("escale" + tag), band_model=model,
                band_params=VDict({p: vals[p] for p in order}), band_name="band" + tag,
                number_of_bz=h.nat("nbz" + tag, 1),
                k_max=VList([h.real("kmax%s%s" % (x, tag), pos=True) for x in "xyz"]))
    if res is not None:
        args["resolution"] = res
    args.update(kw)
    band = (cls or B)(**args)
    band.__dict__["_spec"] = Spec(args, vals, params, model)
    return band


class Spec:
    """what the property statement says about the band, from the inputs only"""
    _pv_spec = True

    def __init__(self, args, vals, params, model):
        self.__dict__.update(args)
        self.vals, self.params, self.model = dict(vals), tuple(sorted(params)), model

    def __deepcopy__(self, m):
        return self

    def args_(self):
        return [self.a, self.b, self.c] + [self.vals[p] * self.energy_scale for p in self.params]

    def E(self, kx, ky, kz, der=""):
        f = libs.AbstractExpr(self.model, (der,) if der else ())
        env = dict(zip(("kx", "ky", "kz", "a", "b", "c") + self.params, [kx, ky, kz] + self.args_()))
        return f.eval(env)

    def v(self, i, kx, ky, kz):
        d = "k" + "xyz"[i]
        if (self.model, d) in libs.ZERO_DERIV:
            return np.zeros_like([kx, ky, kz][i]) if isinstance([kx, ky, kz][i], Arr) else 0
        x = self.E(kx, ky, kz, d) * VUNIT
        if (self.model, d) in libs.CONST_DERIV and isinstance([kx, ky, kz][i], Arr):
            return x * np.ones_like([kx, ky, kz][i])
        return x


# ------------------------------------------------------------------ Fermi-surface data held by a band
FS_FIELDS = ("kf", "vf", "mass", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "p", "n")


def stale_fs(h, band, tag="", dks=True):
    """arbitrary Fermi-surface data, standing for anything computed before"""
    n = h.nat("nkf" + tag, 1)
    g = {"kf": h.arr("kf0" + tag, 3, n), "vf": h.arr("vf0" + tag, 3, n), "mass": h.real("mass0" + tag),
         "dkf": h.arr("dkf0" + tag, n), "dks": h.arr("dks0" + tag, n), "dkz": h.arr("dkz0" + tag, n),
         "dos_k": h.arr("dosk0" + tag, n), "dos_epsilon": h.real("dose0" + tag), "p": h.real("p0" + tag),
         "n": h.real("n0" + tag)}
    for k, v in g.items():
        setattr(band, k, v)
    band.number_of_points_per_kz_list = VList([h.nat("npts0" + tag)])
    return g


def mention_names(p, acc=None, seen=None):
    """names of all function symbols and variables reachable in a term"""
    import engine as E
    acc = set() if acc is None else acc
    acc |= set(E.mentions(p))
    return acc


def value_terms(v):
    """the Polys a value is made of (generic indices for arrays)"""
    if isinstance(v, Num):
        return [v.p]
    if isinstance(v, SBool):
        return [cond_poly(v.c)]
    if isinstance(v, (int, float)):
        return []
    if isinstance(v, Arr):
        g = snapshot(v)
        out = [dsize(d) for d in v.shape_]
        for idx in itertools.product(*[dim_generic(d) for d in v.shape_]):
            out.append(g(idx))
        return out
    if isinstance(v, dict):
        out = []
        for k, x in v.items():
            if isinstance(k, Num):
                out.append(k.p)
            out += value_terms(x)
        if getattr(v, "fams", None):
            for (i, N, kp, x) in v.fams:
                out += [N, kp] + value_terms(x)
        return out
    if isinstance(v, SymSeq):
        i = ranged(fresh("q", nonneg=True), v.n)
        return [v.n] + value_terms(v.item(i))
    if isinstance(v, (list, tuple)):
        out = []
        for x in (v.segs if getattr(v, "segs", None) is not None else v):
            out += value_terms(x)
        return out
    if v is None or isinstance(v, (str, bool)):
        return []
    unsupported("terms of a %s" % type(v).__name__)


def walk(x, f, seen=None):
    """visit every atom below a term"""
    seen = set() if seen is None else seen
    if isinstance(x, Poly):
        for m in x.t:
            for ai, e in m:
                at = T._atom_list[ai]
                if at.id in seen:
                    continue
                seen.add(at.id)
                if f(at):
                    continue
                for y in at.a:
                    walk(y, f, seen)
    elif isinstance(x, T.Lam):
        walk(x.body, f, seen)
        for y in x.his:
            walk(y, f, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            walk(y, f, seen)


def atom_names(v, terms=None):
    """names of the variables and uninterpreted functions a value depends on"""
    acc = set()

    def f(at):
        if at.kind == "v":
            acc.add(at.a[0])
        elif at.kind == "f":
            acc.add(at.a[0])
    seen = set()
    for p in (value_terms(v) if terms is None else terms):
        walk(p, f, seen)
    return acc


def model_args(v, terms=None):
    """argument tuples (after kx, ky, kz) of all dispersion evaluations in a value"""
    acc = []

    def f(at):
        if at.kind == "f" and isinstance(at.a[0], str) and at.a[0].startswith("E["):
            acc.append(at.a[4:])
            return True
    seen = set()
    for p in (value_terms(v) if terms is None else terms):
        walk(p, f, seen)
    return acc


def is_current(v, sp, stale):
    """value computed from the current parameters: mentions nothing stale, every dispersion evaluation uses the
    current lattice constants and parameters"""
    ts = value_terms(v)
    if atom_names(v, ts) & stale:
        return False
    want = [poly(x) for x in sp.args_()]
    for args in set(model_args(v, ts)):
        if len(args) != len(want) or not all(prover.zero(x - w) for x, w in zip(args, want)):
            return False
    return True


def check_fs(h, name, band, stale):
    """every Fermi-surface quantity is absent or was computed with the current parameters"""
    for f in FS_FIELDS:
        v = getattr(band, f)
        h.check("%s: %s absent or current" % (name, f), v is None or is_current(v, band._spec, stale),
                "%s still holds data of earlier parameters: %r" % (f, v))
    v = band.number_of_points_per_kz_list
    h.check("%s: point counts absent or current" % name, v is None or (not value_terms(v)) or is_current(v, band._spec, stale), repr(v))


def set_res(h, band, lo=3):
    """resolution: odd naturals (what the constructor guarantees)"""
    r = [h.nat("res%s" % x, lo) for x in "xyz"]
    band.resolution = VList(r)
    return r


def grid_point(sp, res, idx):
    """coordinates of the sampling grid spanning plus and minus the zone bounds divided by the lattice constants"""
    out = []
    for q in range(3):
        kb = sp.k_max[q] / [sp.a, sp.b, sp.c][q]
        out.append(-kb + 2 * kb * Num(poly(idx[q])) / (res[q] - 1))
    return out


def grid_energy(sp, res):
    return Arr(tuple(poly(r) for r in res), lambda idx: poly(sp.E(*grid_point(sp, res, idx))), "f")


# ------------------------------------------------------------------ conductivity objects
MODELS5 = ("isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func")
SPARAMS = ("gamma_0", "gamma_k", "power", "power_z", "gamma_k_sin", "power_sin", "gamma_dos_max")


def scattering_values(h, tag=""):
    vals = {q: h.real(q + tag, nonneg=True) for q in SPARAMS}
    vals["gamma_0"] = h.real("gamma_0" + tag, pos=True)
    return vals


def mkcond(h, band, models=("isotropic",), tag="", T=0, vals=None, B=None, **kw):
    """a Conductivity built by the real constructor on symbolic inputs"""
    C = h.mod("conductivity").Conductivity
    vals = dict(vals or scattering_values(h, tag))
    B = B or (h.real("Bamp" + tag), h.real("Btheta" + tag), h.real("Bphi" + tag))
    kw.setdefault("N_time", h.nat("Nt" + tag, 2))
    cond = C(bandObject=band, Bamp=B[0], Btheta=B[1], Bphi=B[2], T=T, scattering_models=VList(models),
             scattering_params=VDict(vals), **kw)
    return cond


def fermi_surface(h, band, tag="", n=None):
    """arbitrary Fermi-surface data (post-state of a discretization)"""
    n = n or h.nat("nk" + tag, 1)
    band.kf, band.vf = h.arr("kf" + tag, 3, n), h.arr("vf" + tag, 3, n)
    band.dkf, band.dos_k = h.arr("dkf" + tag, n, nonneg=True), h.arr("dosk" + tag, n, pos=True)
    return n


def field_ref(B, th, ph):
    t, p = th * PI_ / 180, ph * PI_ / 180
    return [B * np.sin(t) * np.cos(p), B * np.sin(t) * np.sin(p), B * np.cos(t)]


def phi_ref(sp, kx, ky):
    """angle of the wavevector folded into the first in-plane zone"""
    fold = lambda k, a: np.remainder(k + PI_ / a, 2 * PI_ / a) - PI_ / a
    return np.arctan2(fold(ky, sp.b), fold(kx, sp.a))


def rate_ref(model, sp, vals, k, v, dosmax):
    """documented scattering rates (ps^-1) at one state"""
    if model == "isotropic":
        return vals["gamma_0"]
    if model == "gamma_dos_func":
        return vals["gamma_dos_max"] * (1 / (HBAR * np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2))) / dosmax
    phi = phi_ref(sp, k[0], k[1])
    if model == "cos2phi":
        return vals["gamma_k"] * np.abs(np.cos(2 * phi)) ** vals["power"]
    if model == "cos2phi_coskz":
        return (vals["gamma_k"] * np.abs(np.cos(2 * phi)) ** vals["power"] *
                np.abs(np.cos(k[2] * sp.c / 2)) ** vals["power_z"])
    if model == "sin2phi":
        return vals["gamma_k_sin"] * np.abs(np.sin(2 * phi)) ** vals["power_sin"]
    raise KeyError(model)


def tau_ref(models, sp, vals, k, v, dosmax=None):
    g = Num(ZERO)
    for m in models:
        g = g + rate_ref(m, sp, vals, k, v, dosmax)
    return 1 / g


def elementwise(f, *arrs):
    """array of f applied to the elements of arrays of one shape"""
    a0 = asarr(arrs[0])
    gs = [snapshot(asarr(a)) for a in arrs]
    return Arr(a0.shape_, lambda idx: poly(f(*[Num(g(idx)) for g in gs])), "f")


def rows(a):
    """the three rows of a (3, ...) array"""
    a = asarr(a)
    return [Arr(a.shape_[1:], lambda idx, q=q: a.get((P(q),) + tuple(idx)), "f") for q in range(3)]


def tau_array(models, sp, vals, k, v, dosmax=None):
    return elementwise(lambda *x: tau_ref(models, sp, vals, x[:3], x[3:], dosmax), *rows(k), *rows(v))


def abstract_band_class(h):
    """BandStructure whose two long computations are replaced by what their own contracts (C03-C06) leave to a caller:
    the discretization stores a surface that is a function of the energy level, the doping is a number"""
    B = h.mod("bandstructure").BandStructure

    class AbstractSurface(B):
        def discretize_fermi_surface(self, epsilon=0):
            surface_at(self, epsilon)

        def doping(self, res_x=500, res_y=500, res_z=500, printDoping=False):
            self.n, self.p = Num(FN("filling_of", poly(res_x), poly(res_y), poly(res_z))), Num(FN("doping_of", poly(res_x), poly(res_y), poly(res_z)))
            return self.p
    return AbstractSurface


declare("npts_at", integer=True, nonneg=True, pos=True)
declare("dkf_at", nonneg=True)
declare("dosk_at", pos=True, nonneg=True)


def surface_at(band, epsilon):
    """the surface at one energy level: a function of the level and of the band's current parameters"""
    e = [poly(epsilon), poly(band.energy_scale), poly(band.a), poly(band.b), poly(band.c)]
    e += [poly(band[p]) for p in sorted(band.band_params)]
    n = FN("npts_at", *e)
    band.kf = Arr((P(3), n), lambda idx: FN("kf_at", *engine.flat_idx(idx), *e), "f")
    band.vf = Arr((P(3), n), lambda idx: FN("vf_at", *engine.flat_idx(idx), *e), "f")
    for f, u in (("dkf", "dkf_at"), ("dos_k", "dosk_at")):
        setattr(band, f, Arr((n,), lambda idx, u=u: FN(u, *engine.flat_idx(idx), *e), "f"))
    return n
