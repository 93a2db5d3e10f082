from common import *
from c17 import BAND, SCAT, abstract_classes, sigma_ref, model, ndict, same_nested
from c18 import column, interp_ref

PAR = "fitting_admr_parallel_oneT.FittingADMRParallel."
SER = "fitting_admr_series_oneT.FittingADMR."
WHICH = ("parallel", "series")
TOP = ("energy_scale", "a", "b", "c", "Bamp", "T")
NAMES = TOP + BAND + SCAT

# data selections: temperature of the fit, azimuths asked for, data (T, phi) -> cut-off angle, polar angles asked for (min, max, step), grid
SELECT = {
    "one": (25, (0,), {(25, 0): 90}, (0, 20, 10), (0, 10, 20)),
    "order": (25, (45, 0, 15), {(25, 45): 90, (6, 0): 5, (25, 0): 90, (25, 15): 90, (6, 45): 90}, (0, 20, 10), (0, 10, 20)),
    "subset": (6, (0, 30), {(25, 0): 12, (6, 45): 3, (6, 30): 90, (6, 0): 90}, (-10, 10, 10), (-10, 0, 10)),
    "cut": (25, (15, 0), {(25, 0): 90, (25, 15): 25}, (0, 40, 10), (0, 10, 20)),
    "cut at a grid angle": (25, (0, 15), {(25, 0): 20, (25, 15): 30}, (0, 40, 10), (0, 10, 20)),
    "cut by another temperature": (25, (0, 15), {(25, 0): 40, (12, 15): 10, (25, 15): 40}, (0, 20, 10), (0, 10, 20)),
}


def member(h, select, fixdoping=2):
    T_, phis, cuts, (lo, hi, st), grid = SELECT[select]
    model(h)
    r = h.real
    mem = VDict({"band_name": "A", "a": r("a", pos=True), "b": r("b", pos=True), "c": r("c", pos=True), "energy_scale": r("es"),
                 "band_params": VDict({p: r(p) for p in BAND}), "band_model": "E", "resolution": VList([21, 21, 3]),
                 "k_max": VList([r("kmx", pos=True), r("kmy", pos=True), r("kmz", pos=True)]), "N_time": h.nat("Nt", 2),
                 "T": r("T", pos=True), "Bamp": r("Bamp"), "scattering_models": VList(["isotropic", "cos2phi"]),
                 "scattering_params": VDict({p: r(p) for p in SCAT}), "fixdoping": fixdoping, "data_T": T_, "data_p": 0.2,
                 "Btheta_min": lo, "Btheta_max": hi, "Btheta_step": st, "Bphi_array": VList(phis)})
    data = VDict({(t, p): VList(["g%d_%d.dat" % (t, p), 1, 2, cut, r("rho0_%d_%d" % (t, p))]) for (t, p), cut in cuts.items()})
    return mem, data, T_, sorted(phis), grid


def fit(h, which, mem, free, data, **kw):
    """the fit object with the stand-ins for the long computations"""
    name = "fitting_admr_%s_oneT" % which
    m = h.mod(name)
    m.BandStructure, m.Conductivity = abstract_classes(h)
    free = VDict({p: VList([h.real("lo_" + p), h.real("hi_" + p)]) for p in free})
    cls = m.FittingADMRParallel if which == "parallel" else m.FittingADMR
    return cls(mem, free, data, **kw), free


def evaluate(f, which, x, free):
    """the fit's own evaluation of a trial; x: name -> value"""
    if which == "parallel":
        return f.compute_diff2(np.array(VList([x[p] for p in f.free_pars_name])))
    ps = libs.Parameters()
    for p in free:
        ps.add(p, value=x[p], min=0, max=1)
    return f.compute_diff(ps)


def reference(h, mem, data, T_, phis, grid, normalized):
    """residuals in order"""
    out = []
    ref = lambda th, p: np.linalg.inv(sigma_ref("A", mem, Num(P(th)), Num(P(p))))[2, 2]
    for p in phis:
        f = "g%d_%d.dat" % (T_, p)
        zero = interp_ref(Num(ZERO), f, 1, 2)
        sim = [ref(t, p) for t in grid]
        norm = np.interp(0, np.array(VList(grid)), np.array(VList(sim)))
        for t, s in zip(grid, sim):
            w = interp_ref(Num(P(t)), f, 1, 2) / zero
            out.append(w - s / norm if normalized else (w * data[T_, p][4] - s) * 100000)
    return out


def residuals_ok(h, name, got, which, res):
    if which == "parallel":
        tot = Num(ZERO)
        for r in res:
            tot = tot + r ** 2
        h.eq(name + ": sum of squared residuals", got, tot)
    else:
        h.eq(name + ": one residual per azimuth and angle, in order", got, np.array(VList(res)))


@contract("C19", [PAR + "compute_diff2", PAR + "load_and_interp_data", PAR + "load_Btheta_data", PAR + "load_Bphi_data",
                  SER + "compute_diff", SER + "load_and_interp_data", SER + "load_Btheta_data", SER + "load_Bphi_data"],
          variants=[dict(which=w, select=s, normalized=n) for w in WHICH for s in SELECT for n in (True, False)],
          bounded="listed selections of data, azimuths and angles; any number of file rows")
def residuals(h, which, select, normalized):
    mem, data, T_, phis, grid = member(h, select)
    kw = {} if normalized else {"normalized_data": False}
    given = ndict(data)
    f, free = fit(h, which, mem, ("gamma_0", "mu"), data, **kw)
    x = {"gamma_0": h.real("x_gamma_0"), "mu": h.real("x_mu")}
    got = evaluate(f, which, x, free)
    spec = ndict(mem)
    spec["scattering_params"]["gamma_0"], spec["band_params"]["mu"] = x["gamma_0"], x["mu"]
    h.eq("azimuths in ascending order", f.Bphi_array, np.array(VList(phis)))
    h.eq("angles cut to the smallest cut-off", f.Btheta_array, np.array(VList(grid)))
    for i, p in enumerate(phis):
        for j, t in enumerate(grid):
            fn = "g%d_%d.dat" % (T_, p)
            w = interp_ref(Num(P(t)), fn, 1, 2) / interp_ref(Num(ZERO), fn, 1, 2)
            h.eq("normalized data", f.rzz_data_matrix[i, j], w)
            h.eq("absolute data", f.rhozz_data_matrix[i, j], w * data[T_, p][4])
    residuals_ok(h, "trial", got, which, reference(h, spec, data, T_, phis, grid, normalized))
    same_nested(h, "data dictionary unchanged", data, given)


@contract("C19", [PAR + "compute_diff2", PAR + "generate_admr", SER + "compute_diff", SER + "produce_ADMR_object"],
          variants=[dict(which=w, free=(p,)) for w in WHICH for p in NAMES] +
                   [dict(which=w, free=p) for w in WHICH for p in (("gamma_0", "mu", "Bamp"), ("power", "energy_scale", "a", "t"), ("T", "gamma_k", "c"), NAMES)],
          bounded="listed sets of free parameters; three angles")
def free_parameters(h, which, free):
    """every free parameter is written to the member and reaches the simulation, in every evaluation"""
    mem, data, T_, phis, grid = member(h, "one")
    was = ndict(mem)
    f, fr = fit(h, which, mem, free, data, normalized_data=False)
    if which == "parallel":
        h.check("free parameters listed once", sorted(f.free_pars_name) == sorted(free), str(f.free_pars_name))
        for p, b in zip(f.free_pars_name, f.bounds):
            h.eq("bounds of the parameter", list(b), [fr[p][0], fr[p][1]])
    else:
        for p in free:
            h.check("parameter handed to the minimizer", p in f.pars, p)
            h.eq("starts from the member's value", f.pars[p].value, was[p] if p in was else was["band_params"][p] if p in BAND else was["scattering_params"][p])
    for q in range(2):
        x = {p: h.real("x%d_%s" % (q, p), pos=p in ("a", "b", "c", "T")) for p in free}
        got = evaluate(f, which, x, fr)
        spec = ndict(was)
        for p in free:
            (spec if p in TOP else spec["band_params"] if p in BAND else spec["scattering_params"])[p] = x[p]
            d = f.member if p in TOP else f.member["band_params"] if p in BAND else f.member["scattering_params"]
            h.eq("evaluation %d: written to the member" % q, d[p], x[p])
        for k in TOP:
            h.eq("evaluation %d: other top-level values kept" % q, f.member[k], spec[k])
        for k in BAND:
            h.eq("evaluation %d: other band parameters kept" % q, f.member["band_params"][k], spec["band_params"][k])
        for k in SCAT:
            h.eq("evaluation %d: other scattering parameters kept" % q, f.member["scattering_params"][k], spec["scattering_params"][k])
        residuals_ok(h, "evaluation %d" % q, got, which, reference(h, spec, data, T_, phis, grid, False))
    same_nested(h, "caller's member unchanged", mem, was)


@contract("C19", [PAR + "generate_admr", SER + "produce_ADMR_object"], variants=[dict(which=w, target=t) for w in WHICH for t in (0.25, -1, 1, 1.5, -1.5)],
          bounded="listed target dopings")
def fixed_doping(h, which, target):
    """with a target doping between -1 and 1 the chemical potential is the one solved for"""
    mem, data, T_, phis, grid = member(h, "one", fixdoping=target)
    f, fr = fit(h, which, mem, ("t",), data, normalized_data=False)
    x = {"t": h.real("x_t")}
    got = evaluate(f, which, x, fr)
    spec = ndict(mem)
    spec["band_params"]["t"] = x["t"]
    if -1 <= target <= 1:
        mu = f.member["band_params"]["mu"]
        h.check("solved for", not (isinstance(mu, Num) and prover.zero(poly(mu) - poly(mem["band_params"]["mu"]))), "mu kept")
        spec["band_params"]["mu"] = mu
    else:
        h.eq("kept", f.member["band_params"]["mu"], mem["band_params"]["mu"])
    residuals_ok(h, "trial", got, which, reference(h, spec, data, T_, phis, grid, False))
