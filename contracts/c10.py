from common import *

SC = "scattering.Scattering."
LISTS = [(m,) for m in MODELS5] + [("isotropic", "cos2phi"), ("cos2phi", "isotropic"), ("sin2phi", "gamma_dos_func", "isotropic"),
         ("cos2phi_coskz", "cos2phi"), MODELS5, tuple(reversed(MODELS5)), ("isotropic", "isotropic"), ()]


def states(h, shape):
    if shape == "one state":
        return [h.real(x) for x in ("kx", "ky", "kz", "vx", "vy", "vz")]
    dims = {"points": (h.nat("n", 1),), "orbits": (h.nat("n", 1), h.nat("nt", 1))}[shape]
    return [h.arr(x, *dims) for x in ("kx", "ky", "kz", "vx", "vy", "vz")]


def spec_tau(models, sp, vals, st, dosmax):
    return elementwise(lambda *x: tau_ref(models, sp, vals, x[:3], x[3:], dosmax), *st)


def dosmax_of(cond):
    return np.max(cond.bandObject.dos_k)


@contract("C10", [SC + "tau_tot_func", SC + "isotropic", SC + "cos2phi", SC + "cos2phi_coskz", SC + "sin2phi",
                  SC + "gamma_dos_func", SC + "phi_func"],
          variants=[dict(models=m, shape=s) for m in LISTS if m for s in ("points", "orbits", "one state")],
          bounded="lists of up to five models (any_number_of_models: any number, any mixture of declared arguments)")
def total_lifetime(h, models, shape):
    band = mkband(h)
    fermi_surface(h, band)
    vals = scattering_values(h)
    cond = mkcond(h, band, models, vals=vals)
    st = states(h, shape)
    tau = cond.tau_tot_func(*st)
    want = spec_tau(models, band._spec, vals, st, dosmax_of(cond))
    h.eq("lifetime is the inverse of the sum of the selected rates", tau, want)
    tau2 = cond.tau_tot_func(*st)
    h.eq("the same when asked again", tau2, want)


@contract("C10", [SC + "_set_scattering_params", SC + "tau_tot_func"],
          variants=[dict(how=w, models=m) for w in ("replace", "attribute", "replace then attribute", "attribute then replace", "models list")
                    for m in (("isotropic", "cos2phi"), MODELS5)], bounded="lists of up to five models (any_number_of_models: any number, any mixture of declared arguments)")
def current_parameters(h, how, models):
    band = mkband(h)
    fermi_surface(h, band)
    vals = scattering_values(h)
    cond = mkcond(h, band, models, vals=vals)
    st = states(h, "orbits")
    cond.tau_tot_func(*st)
    if how == "replace":
        vals = scattering_values(h, "_new")
        cond.scattering_params = VDict(vals)
    elif how == "attribute":
        vals = dict(vals, gamma_0=h.real("g0new"), gamma_k=h.real("gknew"), gamma_dos_max=h.real("gdnew"), power=h.real("pnew"))
        for q in ("gamma_0", "gamma_k", "gamma_dos_max", "power"):
            setattr(cond, q, vals[q])
    elif how == "replace then attribute":
        vals = scattering_values(h, "_new")
        cond.scattering_params = VDict(vals)
        vals["gamma_0"] = h.real("g0new")
        cond.gamma_0 = vals["gamma_0"]
    elif how == "attribute then replace":
        cond.gamma_0 = h.real("g0new")
        vals = scattering_values(h, "_new")
        cond.scattering_params = VDict(vals)
    elif how == "models list":
        models = ("sin2phi", "isotropic")
        cond.scattering_models = VList(models)
    h.eq("rates use the parameters currently set", cond.tau_tot_func(*st), spec_tau(models, band._spec, vals, st, dosmax_of(cond)))


@contract("C10", [SC + "tau_tot_func"], variants=[dict(order=o) for o in (("rate_of_k", "rate_of_v", "rate_of_E"), ("rate_of_E", "rate_of_k", "rate_of_v"),
                                                                          ("rate_of_v",), ("rate_of_E", "isotropic"))],
          bounded="lists of up to three models (any_number_of_models: any number)")
def arguments_declared(h, order):
    """models added by the user: each gets the arguments it declares"""
    C = h.mod("conductivity").Conductivity

    class Mine(C):
        def rate_of_k(self, kx, ky, kz):
            vx = kx ** 2 + 3 * ky
            epsilon = kx * kz
            return self.gamma_0 * (vx + epsilon)

        def rate_of_v(self, vx, vy, vz):
            epsilon = vx * vz
            return vx ** 2 + vy * 5 + epsilon

        def rate_of_E(self, epsilon):
            return self.gamma_k * epsilon ** 2
    band = mkband(h)
    fermi_surface(h, band)
    vals = scattering_values(h)
    cond = Mine(bandObject=band, Bamp=h.real("B"), scattering_models=VList(order), scattering_params=VDict(vals), N_time=h.nat("Nt", 2))
    st = states(h, "orbits")
    eps = h.real("eps")

    def one(kx, ky, kz, vx, vy, vz):
        r = {"rate_of_k": vals["gamma_0"] * (kx ** 2 + 3 * ky + kx * kz), "rate_of_v": vx ** 2 + vy * 5 + vx * vz,
             "rate_of_E": vals["gamma_k"] * eps ** 2, "isotropic": vals["gamma_0"]}
        return 1 / sum((r[m] for m in order), Num(ZERO))
    h.eq("arguments passed to each model", cond.tau_tot_func(*st, eps), elementwise(one, *st))


# ------------------------------------------------------------------ any number of models
def kind_is(i, k):
    return lit("eq", FN("kind_of_model", P(i)) - k)


class AnyModel(str):
    """name of one of any number of models added by the user; each declares the k, the v or the energy"""
    def __new__(cls, i):
        r = str.__new__(cls, "one of any number of models")
        r.i = P(i)
        return r

    def _pv_map(self, f):
        return AnyModel(f(self.i))

    def __deepcopy__(self, m):
        return self


class Opaque:
    def __getattr__(self, k):
        raise Unsupported("%s of one of any number of models" % k)

    def __len__(self):
        raise Unsupported("length")

    def __iter__(self):
        raise Unsupported("iteration")

    def __getitem__(self, k):
        raise Unsupported("item")


class ArgCount(Opaque):
    pass


DECLARED = (("kx", "ky", "kz"), ("vx", "vy", "vz"), ("epsilon",))


def kind_of(i):
    """decides (by cases) what model i declares"""
    return next((k for k in (2, 1) if bool(SBool(kind_is(i, k)))), 0)


class Names(Opaque):
    """names a model declares, arguments first; of the local variables after them nothing is known"""
    def __init__(self, i, first):
        self.i, self.first = i, first

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0, 1) and k.step is None and isinstance(k.stop, ArgCount) and self.first is None:
            return Names(self.i, k.start or 0)
        raise Unsupported("these names of one of any number of models")

    def __contains__(self, x):
        if self.first is None:
            raise Unsupported("local variables of one of any number of models")
        for k, names in enumerate(DECLARED):
            if x in names:
                return bool(SBool(kind_is(self.i, k)))
        return x == "self" and self.first == 0

    def __iter__(self):
        if self.first is None:
            raise Unsupported("local variables of one of any number of models")
        return iter((("self",) + DECLARED[kind_of(self.i)])[self.first:])


class Code(Opaque):
    def __init__(self, i):
        self.co_varnames, self.co_argcount = Names(i, None), ArgCount()


class AnyRate(Opaque):
    """the method of that name: a function of what it declares"""
    def __init__(self, i):
        self.i, self.__code__ = i, Code(i)
        self.__func__ = self

    def _pv_map(self, f):
        return AnyRate(f(self.i))

    def __call__(self, *a, **kw):
        k = kind_of(self.i)
        a = dict(zip(DECLARED[k], a), **kw) if len(a) <= len(DECLARED[k]) and not set(kw) & set(DECLARED[k][:len(a)]) else {}
        if set(a) != set(DECLARED[k]):
            raise TypeError("arguments %s for a model that declares %s" % (sorted(a), DECLARED[k]))
        a = [a[x] for x in DECLARED[k]]
        one = lambda *x: Num(model_rate(k, self.i, *x))
        return one(*a) if all(isnum(x) for x in a) else elementwise(one, *a)


def model_rate(k, i, *x):
    return FN("rate_of_model_%d" % k, P(i), *[poly(y) for y in x])


def any_models(h):
    n = h.nat("nmodels", 0)
    return n, engine.SymSeq(poly(n), AnyModel)


def any_models_class(h):
    C = h.mod("conductivity").Conductivity

    class Mine(C):
        def __getattr__(self, name):
            if isinstance(name, AnyModel):
                return AnyRate(name.i)
            raise AttributeError(name)
    return Mine


@contract("C10", [SC + "tau_tot_func", SC + "__init__"], variants=[dict(shape=s) for s in ("points", "orbits", "one state")])
def any_number_of_models(h, shape):
    band = mkband(h)
    fermi_surface(h, band)
    n, models = any_models(h)
    cond = any_models_class(h)(bandObject=band, Bamp=h.real("B"), scattering_models=models,
                               scattering_params=VDict(scattering_values(h)), N_time=h.nat("Nt", 2))
    cond.gamma_tot = h.arr("gamma_before", h.nat("kb", 1))
    st, eps = states(h, shape), h.real("eps")
    i = ranged(fresh("m", nonneg=True), poly(n))

    def one(*x):
        r = ITE(kind_is(i, 2), model_rate(2, i, eps), ITE(kind_is(i, 1), model_rate(1, i, *x[3:]), model_rate(0, i, *x[:3])))
        return 1 / Num(SUM(i, poly(n), r))
    want = elementwise(one, *st) if shape != "one state" else one(*st)
    h.eq("inverse of the sum of the rates of any number of models, each of what it declares", cond.tau_tot_func(*st, eps), want)
    h.eq("the same when asked again", cond.tau_tot_func(*st, eps), want)


@contract("C10", [SC + m for m in MODELS5], variants=[dict(m=m) for m in MODELS5])
def never_negative(h, m):
    band = mkband(h)
    fermi_surface(h, band)
    cond = mkcond(h, band, (m,))
    st = states(h, "orbits")
    tau = asarr(cond.tau_tot_func(*st))
    rate = pinv(tau.get((ranged(fresh("i", nonneg=True), poly(h.nat("n", 1))), ranged(fresh("j", nonneg=True), poly(h.nat("nt", 1))))))
    h.nonneg("rate of %s" % m, rate)


@contract("C10", [SC + "phi_func", SC + "cos2phi", SC + "cos2phi_coskz", SC + "sin2phi"],
          variants=[dict(m=m) for m in ("cos2phi", "cos2phi_coskz", "sin2phi")])
def periodic(h, m):
    band = mkband(h)
    fermi_surface(h, band)
    cond = mkcond(h, band, (m,))
    st = states(h, "points")
    sp = band._spec
    p, q = Num(V("p", integer=True)), Num(V("q", integer=True))
    t1 = cond.tau_tot_func(*st)
    t2 = cond.tau_tot_func(st[0] + p * (2 * PI_ / sp.a), st[1] + q * (2 * PI_ / sp.b), *st[2:])
    h.eq("same rate an in-plane reciprocal lattice vector away", t2, t1)


@contract("C10", ["conductivity.Conductivity.t_o_tau_func", SC + "tau_tot_func"],
          variants=[dict(models=m) for m in (("isotropic", "cos2phi"), MODELS5)], bounded="lists of up to five models (any_number_of_models: any number, any mixture of declared arguments)")
def rates_along_orbits(h, models):
    """the lifetimes stored along the orbits are those of the states of the orbits"""
    band = mkband(h)
    fermi_surface(h, band)
    vals = scattering_values(h)
    cond = mkcond(h, band, models, vals=vals)
    n = h.nat("nk", 1)
    cond.reset_time()
    sp = band._spec
    if cond.Bamp != 0:
        cond.kft, cond.vft = h.arr("kft", 3, n, cond.N_time), h.arr("vft", 3, n, cond.N_time)
        cond.t_o_tau_func(h.real("eps"))
        h.eq("lifetime of each state of each orbit", cond.tau_tot, tau_array(models, sp, vals, cond.kft, cond.vft, dosmax_of(cond)))
    else:
        cond.kft, cond.vft = h.arr("kft", 3, n, 1), h.arr("vft", 3, n, 1)
        cond.t_o_tau_func(h.real("eps"))
        h.eq("lifetime of each Fermi point", cond.tau_tot, tau_array(models, sp, vals, cond.kft[:, :, 0], cond.vft[:, :, 0], dosmax_of(cond)))
