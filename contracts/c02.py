from common import *
from c06 import any_bands, filling_at

BS = "bandstructure.BandStructure."
P3 = ("mu", "t", "tp")


def setup(h, tag=""):
    band = mkband(h, params=P3, tag=tag)
    before = set(atom_names(stale_fs(h, band, tag)))
    return band, band._spec, before


def params_are(h, name, band, sp):
    bp = band._band_params
    h.check(name + ": same parameter names", sorted(bp.keys()) == sorted(sp.params), repr(sorted(bp.keys())))
    for q in sp.params:
        h.eq("%s: value of %s" % (name, q), bp[q], sp.vals[q])
        h.eq("%s: reading %s" % (name, q), band[q], sp.vals[q])
        h.eq("%s: get_band_param" % name, band.get_band_param(q), sp.vals[q])


OPS = ["item", "item zero", "method", "replace", "replace renamed order", "scale", "same value"]


@contract("C02", [BS + "__setitem__", BS + "set_band_param", BS + "_set_band_params", BS + "_set_energy_scale",
                  BS + "erase_Fermi_surface", BS + "__getitem__", BS + "get_band_param"],
          variants=[dict(op=o) for o in OPS])
def change_erases(h, op):
    """invariant: every Fermi-surface quantity is absent or current; each public change restores it from any state"""
    band, sp, stale = setup(h)
    if op == "item":
        x = h.real("new")
        band["tp"] = x; sp.vals["tp"] = x
    elif op == "item zero":
        band["mu"] = 0; sp.vals["mu"] = 0
    elif op == "method":
        x = h.real("new")
        band.set_band_param("mu", x); sp.vals["mu"] = x
    elif op == "replace":
        sp.vals = {q: h.real("new_" + q) for q in P3}
        band.band_params = VDict(sp.vals)
    elif op == "replace renamed order":
        sp.vals = {q: h.real("new_" + q) for q in P3}
        band.band_params = VDict({q: sp.vals[q] for q in sorted(P3, reverse=True)})
    elif op == "scale":
        x = h.real("new")
        band.energy_scale = x; sp.energy_scale = x
        h.eq("energy scale reads back", band.energy_scale, x)
    elif op == "same value":
        band["mu"] = sp.vals["mu"]
        stale = set()
    if op != "same value":
        check_fs(h, op, band, stale)
    params_are(h, op, band, sp)


@contract("C02", [BS + "__setitem__", BS + "set_band_param", BS + "__getitem__"])
def undeclared_changes_nothing(h):
    band, sp, stale = setup(h)
    for what in ("item", "method"):
        before = dict(band.__dict__)
        bp = dict(band._band_params)
        if what == "item":
            band["zzz"] = h.real("new")
        else:
            band.set_band_param("not_declared", h.real("new"))
        after = dict(band.__dict__)
        h.check("%s with an undeclared name: attributes unchanged" % what,
                set(before) == set(after) and all(after[k] is before[k] for k in before),
                "changed: %r" % [k for k in set(before) | set(after) if before.get(k) is not after.get(k)])
        h.check("%s with an undeclared name: parameters unchanged" % what,
                dict(band._band_params).keys() == bp.keys() and all(band._band_params[k] is bp[k] for k in bp))
        params_are(h, "undeclared name", band, sp)


@contract("C02", [BS + "__getitem__", BS + "get_band_param"],
          variants=[dict(val=v) for v in ("zero", "float zero", "symbolic", "negative")])
def reading(h, val):
    band, sp, stale = setup(h)
    x = {"zero": 0, "float zero": 0.0, "symbolic": h.real("anyvalue"), "negative": -h.real("w", pos=True)}[val]
    band["mu"] = x
    h.eq("reads back", band["mu"], x)
    h.eq("reads back with get_band_param", band.get_band_param("mu"), x)
    sp.vals["mu"] = x
    params_are(h, "reading", band, sp)


@contract("C02", [BS + "__init__", BS + "_set_band_params", BS + "_get_band_params"])
def own_copy(h):
    vals = {q: h.real("par_" + q) for q in P3}
    mine = VDict(vals)
    kw = dict(a=h.real("a", pos=True), b=h.real("b", pos=True), c=h.real("c", pos=True), energy_scale=h.real("es"),
              band_model="M")
    declare_model("M", ("kx", "ky", "kz", "a", "b", "c") + tuple(sorted(P3)))
    B = h.mod("bandstructure").BandStructure
    b1 = B(band_params=mine, **kw)
    b2 = B(band_params=mine, **kw)
    mine["mu"] = h.real("changed")
    mine["extra"] = 1
    sp = Spec(dict(kw), vals, P3, "M")
    params_are(h, "first band after changing the caller's dictionary", b1, sp)
    b1["mu"] = h.real("b1mu")
    params_are(h, "second band after changing the first", b2, sp)
    other = VDict({q: h.real("other_" + q) for q in P3})
    sp2 = Spec(dict(kw), dict(other), P3, "M")
    b1.band_params = other
    b2.band_params = other
    other["t"] = h.real("changed2")
    params_are(h, "replaced set after changing the caller's dictionary", b1, sp2)
    b2["tp"] = h.real("b2tp")
    params_are(h, "replaced set after changing another band", b1, sp2)
    b1["t"] = h.real("b1t")
    h.eq("caller's dictionary untouched by the band", other["t"], h.real("changed2"))


@contract("C02", [BS + "set_mu_to_doping", BS + "diff_doping", BS + "doping", BS + "update_filling"])
def solving_for_doping(h):
    band, sp, stale = setup(h)
    n0 = len(CTX.notes)
    band.set_mu_to_doping(h.real("ptarget"), ptol=h.real("ptol", pos=True))
    sp.vals["mu"] = band._band_params["mu"]
    stale = stale | {"par_mu"}
    trial = [n for n in CTX.notes if n[0] == "brentq"]
    h.check("solver called", len(trial) >= 1)
    # no dependence on the trial values other than through the solution itself
    check_fs(h, "set_mu_to_doping", band, {"kf0"} | stale - {"par_mu"})
    params_are(h, "set_mu_to_doping", band, sp)


@contract("C02", ["bandstructure.set_mu_to_doping", "bandstructure.dopingCondition", "bandstructure.doping"],
          variants=[dict(nb=1), dict(nb=2), dict(nb=3)], bounded="1, 2 and 3 bands (any_number_of_bands: any number)")
def solving_for_doping_many(h, nb):
    bands = [setup(h, "_%d" % i) for i in range(nb)]
    h.mod("bandstructure").set_mu_to_doping(VList([b for b, s, st in bands]), h.real("ptarget"), ptol=h.real("ptol", pos=True))
    for i, (b, sp, st) in enumerate(bands):
        sp.vals["mu"] = b._band_params["mu"]
        check_fs(h, "band of several", b, st)
        params_are(h, "band of several", b, sp)


@contract("C02", ["bandstructure.set_mu_to_doping", "bandstructure.dopingCondition", "bandstructure.doping"],
          variants=[dict(what=w) for w in ("solve", "trial")])
def any_number_of_bands(h, what):
    """of any number of bands in any state, each ends with the value solved for (or tried), and what it then holds is
    what that last change left or what was counted after it"""
    nb, store, bands = any_bands(h)
    t0 = copy_arr(store["t"])
    if what == "solve":
        h.mod("bandstructure").set_mu_to_doping(bands, h.real("ptarget"), ptol=h.real("ptol", pos=True))
    else:
        h.mod("bandstructure").dopingCondition(h.real("mutrial"), h.real("ptarget"), bands)
        h.eq("trial value of every band", store["mu"], Arr((poly(nb),), lambda idx: poly(h.real("mutrial")), "f"))
    i = ranged(fresh("i", nonneg=True), poly(nb))
    mu = store["mu"].get((i,))
    for f in ("n", "p"):
        got = store[f].get((i,))
        n = poly(filling_at(i, Num(mu), 500, 500, 500))
        want = FN("dropped", mu, i) if "dropped" in engine.mentions(got) else n if f == "n" else 1 - n
        h.eq("%s of every band is current" % f, Num(got), Num(want))
    h.eq("other parameters unchanged", store["t"], t0)


@contract("C02", [BS + "diff_doping", "bandstructure.dopingCondition"])
def trial_evaluations(h):
    """a trial evaluation leaves the band with data of the trial value only"""
    band, sp, stale = setup(h)
    mu = h.real("mutrial")
    band.diff_doping(mu, h.real("ptarget"))
    sp.vals["mu"] = mu
    check_fs(h, "diff_doping", band, stale)
    params_are(h, "diff_doping", band, sp)
    b2, sp2, st2 = setup(h, "_2")
    h.mod("bandstructure").dopingCondition(mu, h.real("ptarget"), VList([b2]))
    sp2.vals["mu"] = mu
    check_fs(h, "dopingCondition", b2, st2)
    params_are(h, "dopingCondition", b2, sp2)


@contract("C02", [BS + "runBandStructure", BS + "discretize_fermi_surface", BS + "marching_cube", BS + "marching_square",
                  BS + "update_filling"],
          variants=[dict(square=False), dict(square=True)])
def recomputation_is_current(h, square):
    band, sp, stale = setup(h)
    band.march_square = square
    band["mu"] = h.real("mu2"); sp.vals["mu"] = h.real("mu2")
    band.runBandStructure(epsilon=h.real("eps"))
    check_fs(h, "runBandStructure", band, stale | {"par_mu"})
    for f in ("kf", "vf", "dkf", "dos_k", "n", "p"):
        h.check("runBandStructure computes " + f, getattr(band, f) is not None)


@contract("C02", [BS + "dos_epsilon_func", BS + "mass_func"])
def derived_from_held_data(h):
    """total density of states and mass are computed from the data the band holds now, not from remembered values"""
    band, sp, stale = setup(h)
    n = h.nat("nkf", 1)
    band.kf, band.vf = h.arr("kf1", 3, n), h.arr("vf1", 3, n)
    band.dkf, band.dks, band.dkz, band.dos_k = (h.arr(x + "1", n) for x in ("dkf", "dks", "dkz", "dosk"))
    band.dos_epsilon_func()
    band.mass_func()
    for f in ("dos_epsilon", "mass"):
        h.check("%s computed from current data" % f, is_current(getattr(band, f), sp, stale - {"nkf"}))
