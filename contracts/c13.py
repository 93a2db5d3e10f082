from common import *
from c12 import chambers_ref
from c14 import left_behind

CO = "conductivity.Conductivity."


def peak(T):
    return 1 / (4 * KB_MEV * T)


def minus_dfdE(e, T):
    return peak(T) / np.cosh(e / (2 * KB_MEV * T)) ** 2


def bound_ref(T, cut):
    """energy where -df/dE is the fraction cut of its peak: cosh^2(E / 2kT) = 1 / cut"""
    return 2 * KB_MEV * T * np.arccosh(1 / np.sqrt(cut))


def energies_ok(h, name, cond, T, N, cut):
    E = cond.epsilon_array
    b = bound_ref(T, cut)
    h.eq(name + ": requested number of energies", Num(dsize(asarr(E).shape_[0])), N)
    want = Arr((poly(N),), lambda idx: poly(-b + 2 * b * Num(idx[0]) / (N - 1)), "f")
    h.eq(name + ": evenly spaced, symmetric, out to the cut-off", E, want)


HIST = ("", "T", "N", "cut", "T N", "N T", "T cut", "cut T", "N cut", "cut N", "T N cut", "cut N T", "N T cut T N",
        "T T", "zero T", "N zero T", "zero N T", "zero cut T N", "run T", "run N", "run cut")


@contract("C13", [CO + "__init__", CO + "_set_T", CO + "_set_N_epsilon", CO + "_set_dfdE_cut_percent", CO + "energyCutOff", CO + "dfdE"],
          variants=[dict(hist=x, cold=c) for x in HIST for c in (False, True) if not c or (x and "run" not in x)],
          bounded="listed histories of up to five changes (energies_after_any_history covers every history by induction)")
def energies(h, hist, cold):
    band = mkband(h)
    fermi_surface(h, band)
    T, N, cut = h.real("T0", pos=True), h.nat("Ne", 2), cutoff(h, "cut")
    cond = mkcond(h, band, T=0 if cold else T, N_epsilon=N, dfdE_cut_percent=cut)
    if cold:
        T = Num(ZERO)
    else:
        energies_ok(h, "construction", cond, T, N, cut)
    for q, op in enumerate(hist.split()):
        if op == "T":
            T = h.real("T_%d" % q, pos=True)
            cond.T = T
        elif op == "zero":
            cond.T = T = Num(ZERO)
        elif op == "N":
            N = h.nat("Ne_%d" % q, 2)
            cond.N_epsilon = N
        elif op == "cut":
            cut = cutoff(h, "cut_%d" % q)
            cond.dfdE_cut_percent = cut
        elif op == "run":
            # what a run leaves behind in the object does not matter
            cond.time_max, cond.dtime = h.real("tm"), h.real("dt")
        h.eq("change %d: temperature reads back" % q, cond.T, T)
        h.eq("change %d: number of energies reads back" % q, cond.N_epsilon, N)
        h.eq("change %d: cut-off reads back" % q, cond.dfdE_cut_percent, cut)
        if T is not None and T.p.t:
            energies_ok(h, "change %d (%s)" % (q, op), cond, T, N, cut)


@contract("C13", [CO + "_set_T", CO + "_set_N_epsilon", CO + "_set_dfdE_cut_percent", CO + "energyCutOff", CO + "dfdE", CO + "runTransport"],
          variants=[dict(op=o, cold=c, first=f) for o in ("T", "zero", "N", "cut", "run") for c in (False, True) for f in (False, True)
                    if not (o == "run" and f)])
def energies_after_any_history(h, op, cold, first):
    """Induction over histories. Invariant: at a finite temperature the energies are those of the current temperature,
    number and cut-off; at T = 0, and in every other field, anything may have been left behind. The constructor
    establishes it (energies) and every change, and every run, preserves it."""
    band = mkband(h, cls=abstract_band_class(h))
    set_res(h, band)
    band.runBandStructure(printDoping=False)
    T, N, cut = h.real("T0", pos=True), h.nat("Ne", 2), cutoff(h, "cut")
    if cold:
        T = Num(ZERO)
    cond = mkcond(h, band, T=0 if cold else T, N_epsilon=N, dfdE_cut_percent=cut)
    left_behind(h, cond, cold, first)
    if op == "T":
        T = h.real("T_new", pos=True)
        cond.T = T
    elif op == "zero":
        T = Num(ZERO)
        cond.T = T
    elif op == "N":
        N = h.nat("Ne_new", 2)
        cond.N_epsilon = N
    elif op == "cut":
        cut = cutoff(h, "cut_new")
        cond.dfdE_cut_percent = cut
    else:
        cond.runTransport()
    h.eq("temperature reads back", cond.T, T)
    h.eq("number of energies reads back", cond.N_epsilon, N)
    h.eq("cut-off reads back", cond.dfdE_cut_percent, cut)
    if T.p.t:
        energies_ok(h, "after " + op, cond, T, N, cut)


def cutoff(h, name):
    """fraction of the peak between 0 and 1"""
    c = h.real(name, pos=True)
    h.assume(c < 1)
    return c


@contract("C13", [CO + "dfdE", CO + "energyCutOff"])
def derivative(h):
    """-df/dE is 1/(4 kT cosh^2(E/2kT)); at the cut-off energy it is the requested fraction of its peak"""
    band = mkband(h)
    T, cut, e = h.real("T0", pos=True), cutoff(h, "cut"), h.real("E")
    cond = mkcond(h, band, T=T, N_epsilon=h.nat("Ne", 2), dfdE_cut_percent=cut)
    h.eq("minus df/dE", -cond.dfdE(e), minus_dfdE(e, T))
    h.eq("value at the Fermi level", -cond.dfdE(0), peak(T))
    b = bound_ref(T, cut)
    h.eq("last energy", cond.epsilon_array[-1], b)
    h.eq("first energy", cond.epsilon_array[0], -b)
    h.eq("fraction at the cut-off", -cond.dfdE(b), cut * peak(T))
    h.eq("fraction at minus the cut-off", -cond.dfdE(-b), cut * peak(T))


@contract("C13", [CO + "runTransport", CO + "chambers_func", CO + "integrand_coeff", CO + "sigma_epsilon", CO + "dfdE",
                  "bandstructure.BandStructure.runBandStructure"],
          variants=[dict(models=m, again=a) for m in (("isotropic",), ("isotropic", "cos2phi"), ("gamma_dos_func", "isotropic"), ("rate_of_E", "isotropic")) for a in (False, True)])
def tensors(h, models, again):
    band = mkband(h, cls=abstract_band_class(h))
    sp = band._spec
    set_res(h, band)
    band.runBandStructure(printDoping=False)
    vals = scattering_values(h)
    T, N, cut = h.real("T0", pos=True), h.nat("Ne", 2), cutoff(h, "cut")
    C = h.mod("conductivity").Conductivity

    class Mine(C):
        def rate_of_E(self, epsilon):
            return self.gamma_k * epsilon ** 2

    def taus(k, v, dosmax, e):
        """lifetimes at energy e"""
        def one(*x):
            g = Num(ZERO)
            for m in models:
                g = g + (vals["gamma_k"] * e ** 2 if m == "rate_of_E" else rate_ref(m, sp, vals, x[:3], x[3:], dosmax))
            return 1 / g
        return elementwise(one, *rows(k), *rows(v))
    cond = Mine(bandObject=band, Bamp=h.real("Bamp"), Btheta=h.real("Btheta"), Bphi=h.real("Bphi"), T=T, scattering_models=VList(models),
                scattering_params=VDict(vals), N_time=h.nat("Nt", 2), N_epsilon=N, dfdE_cut_percent=cut)
    if again:
        cond.runTransport()
        T = h.real("T_new", pos=True)
        cond.T = T
        N = h.nat("Ne_new", 2)
        cond.N_epsilon = N
    cond.runTransport()
    nt = cond.N_time
    step = 8 * np.max(taus(band.kf, band.vf, np.max(band.dos_k), Num(ZERO))) / nt
    # reference: the surface at one energy
    b = bound_ref(T, cut)
    i = ranged(fresh("ie", nonneg=True), poly(N))
    e = -b + 2 * b * Num(i) / (N - 1)
    bd = copy_band(band)
    surface_at(bd, e)
    ref = mkcond(h, bd, vals=vals, tag="", T=0)
    dosmax = np.max(bd.dos_k)
    n = Num(dsize(asarr(bd.kf).shape_[1]))
    ref.reset_time()
    ref.time_array = step * np.arange(nt)
    ref.dtime = step
    if cond.Bamp != 0:
        ref.solve_movement()
        V_ = asarr(ref.vft)
        tau = taus(ref.kft, ref.vft, dosmax, e)

        def vint(c, p):
            j = ranged(fresh("j", nonneg=True), poly(nt))
            q = ranged(fresh("q", nonneg=True), j)
            expo = poly(step) * SUM(q, j, pinv(tau.get((p, q + 1))))
            return Num(SUM(j, poly(nt), poly(step) * V_.get((c, p, j)) * poly(np.exp(Num(-expo)))))
        sg = chambers_ref(h, cond, n, bd.dkf, bd.dos_k, lambda c, p: Num(V_.get((c, p, ZERO))), vint, sp.number_of_bz)
    else:
        vf, tau = asarr(bd.vf), taus(bd.kf, bd.vf, dosmax, e)
        sg = chambers_ref(h, cond, n, bd.dkf, bd.dos_k, lambda c, p: Num(vf.get((c, p))),
                          lambda c, p: Num(vf.get((c, p))) * Num(tau.get((p,))), sp.number_of_bz)
    dE = 2 * b / (N - 1)
    Ej = e * MEV
    for name, got, coeff in (("electrical", cond.sigma, Num(ONE)), ("thermoelectric", cond.alpha, Ej / (-QE * T)),
                             ("thermal", cond.beta, Ej ** 2 / (QE ** 2 * T))):
        w = poly(dE * minus_dfdE(e, T) * coeff)
        want = Arr((P(3), P(3)), lambda idx, w=w: SUM(i, poly(N), w * sg.get(idx)), "f")
        h.eq(name + " tensor", got, want)
    bb = cond.bandObject
    for f in ("kf", "vf", "dkf", "dos_k"):
        h.eq("band back at the Fermi level: " + f, getattr(bb, f), getattr(band, f))


def copy_band(b):
    import copy
    return copy.deepcopy(b)
