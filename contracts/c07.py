from common import *
from c06 import filling_ref, any_bands, filling_at

BS = "bandstructure.BandStructure."
P3 = ("mu", "t", "tp")


def other_params_kept(h, band, sp):
    for q in P3:
        if q != "mu":
            h.eq("parameter %s unchanged" % q, band._band_params[q], sp.vals[q])
    h.check("no parameter added or removed", sorted(band._band_params.keys()) == sorted(P3))
    h.eq("energy scale unchanged", band.energy_scale, sp.energy_scale)
    for x in "abc":
        h.eq("lattice constants unchanged", getattr(band, x), getattr(sp, x))
    h.eq("number of zones unchanged", band.number_of_bz, sp.number_of_bz)
    for q in range(3):
        h.eq("zone bounds unchanged", band.k_max[q], sp.k_max[q])


def with_mu(sp, mu):
    s = Spec.__new__(Spec)
    s.__dict__.update(sp.__dict__)
    s.vals = dict(sp.vals, mu=mu)
    return s


def solution(h, sps, target, tol):
    """the root the solver returns for: doping (of all bands with that chemical potential) minus target"""
    x = fresh("mu", integer=False)
    tot = Num(ZERO)
    for sp in sps:
        tot = tot + filling_ref(with_mu(sp, Num(x)), [500, 500, 500])
    return Num(FN("brentq", LAM([x], [T.REALDOM], poly(1 - tot - target)), P(-10), P(10), poly(tol)))


def check_calls(h, n0, tol):
    calls = [n for n in CTX.notes[n0:] if n[0] == "brentq"]
    h.check("one search", len(calls) == 1, "%d calls of the root finder" % len(calls))
    if len(calls) == 1:
        h.eq("lower bound", Num(calls[0][2]), -10)
        h.eq("upper bound", Num(calls[0][3]), 10)
        h.eq("tolerance", Num(calls[0][4]), tol)


@contract("C07", [BS + "set_mu_to_doping", BS + "diff_doping", BS + "doping", BS + "update_filling"],
          variants=[dict(tol=t) for t in ("given", "default")],
          assumes=["scipy.optimize.brentq evaluates the function at trial points, the last one arbitrary, and returns a "
                   "zero bracketed by its bounds to within xtol"])
def one_band(h, tol):
    band = mkband(h, params=P3)
    sp = band._spec
    stale_fs(h, band)
    target = h.real("ptarget")
    t = h.real("ptol", pos=True)
    n0 = len(CTX.notes)
    if tol == "given":
        band.set_mu_to_doping(target, ptol=t)
    else:
        t = Num(P(Fr(1, 1000)))
        band.set_mu_to_doping(target)
    check_calls(h, n0, t)
    h.eq("chemical potential is the solver's solution", band["mu"], solution(h, [sp], target, t))
    other_params_kept(h, band, sp)


@contract("C07", ["bandstructure.set_mu_to_doping", "bandstructure.dopingCondition", "bandstructure.doping"],
          variants=[dict(nb=k, tol=t) for k in (1, 2, 3) for t in ("given", "default")], bounded="1, 2 and 3 bands (any_number_of_bands: any number)",
          assumes=["scipy.optimize.brentq contract (see one_band)"])
def several_bands(h, nb, tol):
    bands = [mkband(h, params=P3, tag="_%d" % i) for i in range(nb)]
    for i, b in enumerate(bands):
        stale_fs(h, b, "_%d" % i)
    target = h.real("ptarget")
    t = h.real("ptol", pos=True)
    n0 = len(CTX.notes)
    f = h.mod("bandstructure").set_mu_to_doping
    if tol == "given":
        f(VList(bands), target, ptol=t)
    else:
        t = Num(P(Fr(1, 1000)))
        f(VList(bands), target)
    check_calls(h, n0, t)
    want = solution(h, [b._spec for b in bands], target, t)
    for b in bands:
        h.eq("chemical potential of each band is the solver's solution", b["mu"], want)
        other_params_kept(h, b, b._spec)


@contract("C07", ["bandstructure.set_mu_to_doping", "bandstructure.dopingCondition", "bandstructure.doping"],
          variants=[dict(tol=t) for t in ("given", "default")], assumes=["scipy.optimize.brentq contract (see one_band)"])
def any_number_of_bands(h, tol):
    nb, store, bands = any_bands(h)
    others = {k: copy_arr(store[k]) for k in store if k not in ("mu", "n", "p")}
    target, t = h.real("ptarget"), h.real("ptol", pos=True)
    n0 = len(CTX.notes)
    f = h.mod("bandstructure").set_mu_to_doping
    if tol == "given":
        f(bands, target, ptol=t)
    else:
        t = Num(P(Fr(1, 1000)))
        f(bands, target)
    check_calls(h, n0, t)
    x = fresh("mu", integer=False)
    fill = Arr((poly(nb),), lambda idx: poly(filling_at(idx[0], Num(x), 500, 500, 500)), "f")
    want = Num(FN("brentq", LAM([x], [T.REALDOM], poly(1 - np.sum(fill) - target)), P(-10), P(10), poly(t)))
    h.eq("chemical potential of each band is the solver's solution", store["mu"], Arr((poly(nb),), lambda idx: poly(want), "f"))
    for k, v in others.items():
        h.eq("no other parameter changes", store[k], v)
