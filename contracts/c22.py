from common import *
from c17 import FM, FIT, LAYOUTS, abstract_classes, dicts, ndict, same_nested, set_ref, sims_ok
from c19 import PAR, SER, member, residuals_ok, reference, TOP, BAND, SCAT
from ctx import CTX



def stand_ins(h):
    """as for the objectives, and figures of a result are drawn without error"""
    B, C = abstract_classes(h)

    class Drawn(C):
        def figParameters(self, *a, **k):
            return "figure"
    return B, Drawn


def setting(h, layout):
    """the reference angle is one of the grid's angles (any angle: C18)"""
    out = dicts(h, layout)
    for k in list(out[4]):
        out[4][k][6] = 0
    return out


PO = "fitting_admr_parallel_oneT."


def searches(kind):
    return [n[1] for n in CTX.notes if n[0] == kind]


def options(h, kw):
    """non-default settings of the search, to be handed on unchanged"""
    if kw:
        return {"popsize": h.nat("popsize", 1), "mutation": (h.real("mut_lo"), h.real("mut_hi")), "recombination": h.real("recombination"),
                "num_cpu": h.nat("num_cpu", 1), "percent_workers": h.real("percent", nonneg=True)}
    return {}


def search_ok(h, bounds, serial, opts):
    """the one search of the fit: bounds, options, value of every trial in any worker"""
    runs = searches("differential_evolution")
    h.check("one search", len(runs) == 1, "%d searches" % len(runs))
    r = runs[-1]
    h.check("one pair of bounds per free parameter", len(r["bounds"]) == len(bounds), str(r["bounds"]))
    for got, want in zip(r["bounds"], bounds):
        h.eq("bounds searched", list(got), list(want))
    for k, (x, v) in enumerate(r["trials"]):
        h.eq("value of a trial in a worker is that of a serial evaluation", v, serial(x))
    for s in r["stops"]:
        h.check("no generation ends the search early", s is None or s is False, str(s))
    for k in ("popsize", "recombination"):
        h.eq("option %s handed on" % k, r[k], opts.get(k, {"popsize": 15, "recombination": Num(P(Fr(7, 10)))}[k]))
    mut = opts.get("mutation", (Num(P(Fr(1, 2))), 1))
    h.eq("option mutation handed on", list(r["mutation"]) if isinstance(r["mutation"], (tuple, list)) else r["mutation"], list(mut))
    return r["best"]


@contract("C22", [FM + "fit_admr_parallel", FM + "init", FIT + "__init__", FIT + "compute_fitness", FIT + "update_parameters", FIT + "save_member_to_json"],
          variants=[dict(layout=l, normalized=n, opts=o) for l in LAYOUTS for n, o in ((True, False), (False, True))],
          bounded="listed layouts; two angles per azimuth")
def several_temperatures(h, layout, normalized, opts):
    temps, bands, params, bounds, data, labels = setting(h, layout)
    m = h.mod("fitting_admr_parallel_multiT")
    m.BandStructure, m.Conductivity = stand_ins(h)
    for i, l in enumerate(labels):
        if l[2] == "T":
            libs.TRIAL[i] = dict(pos=True)
    given = (params, bounds, data)
    before = tuple(ndict(x) for x in given)
    kw = options(h, opts)
    if not normalized:
        kw["normalized_data"] = False
    f = m.fit_admr_parallel(params, bounds, data, **kw)

    def serial(x):
        _, _, p2, b2, d2, _ = setting(h, layout)
        return m.Fitness(d2, p2, b2, normalized).compute_fitness(x)
    best = search_ok(h, [before[1][t][b][p] for t, b, p in labels], serial, kw)
    spec = ndict(before[0])
    set_ref(spec, temps, labels, [best[i] for i in range(len(labels))])
    same_nested(h, "parameters returned are the best found, the others as given", f.params_dict, spec)
    sims_ok(h, "simulation kept with the result", f, temps, bands, spec)
    f.save_member_to_json("result", "out")
    f.save_member_to_json()
    saved = [n for n in CTX.notes if n[0] == "json"]
    h.check("saved where asked for", [n[1] for n in saved] == ["out/result.json", "file.json"], str([n[1] for n in saved]))
    for n in saved:
        same_nested(h, "parameters saved are the best found, the others as given", n[2], VDict({str(k): v for k, v in spec.items()}))
    for name, g, w in zip(("parameters", "bounds", "data"), given, before):
        same_nested(h, "caller's %s dictionary unchanged" % name, g, w)


FREE = (("gamma_0",), ("mu",), ("Bamp",), ("power", "energy_scale"), ("gamma_0", "mu", "Bamp"), ("t", "gamma_k", "c"), ("T", "gamma_0"))


def members_ok(h, members, spec, fixdoping):
    """every copy of the result: the values found, all others as given"""
    for what, d in members:
        for k in TOP:
            h.eq("%s top-level values: best found, the others as given" % what, d[k], spec[k])
        for k in BAND:
            if k == "mu" and -1 <= fixdoping <= 1:
                h.check("%s chemical potential is the one solved for" % what, "brentq" in engine.mentions(poly(d["band_params"]["mu"])), str(d["band_params"]["mu"]))
                h.eq("the same chemical potential everywhere", d["band_params"]["mu"], members[0][1]["band_params"]["mu"])
                continue
            h.eq("%s band parameters: best found, the others as given" % what, d["band_params"][k], spec["band_params"][k])
        for k in SCAT:
            h.eq("%s scattering parameters: best found, the others as given" % what, d["scattering_params"][k], spec["scattering_params"][k])


@contract("C22", [PO + "fit_admr_parallel", PO + "init", PAR + "__init__", PAR + "compute_diff2", PAR + "generate_admr", PAR + "save_member_to_json", PAR + "fig_compare"],
          variants=[dict(free=f, named=n, normalized=a, opts=o, fixdoping=2) for f in FREE for n, a, o in ((True, True, False), (False, False, True))] +
                   [dict(free=("t",), named=True, normalized=True, opts=False, fixdoping=0.25)],
          bounded="listed sets of free parameters; two azimuths, two angles")
def one_temperature(h, free, named, normalized, opts, fixdoping):
    mem, data, T_, phis, grid = member(h, "cut at a grid angle", fixdoping)
    m = h.mod("fitting_admr_parallel_oneT")
    m.BandStructure, m.Conductivity = stand_ins(h)
    bounds = VDict({p: VList([h.real("lo_" + p), h.real("hi_" + p)]) for p in free})
    names = sorted(free)
    for i, p in enumerate(names):
        if p in ("a", "b", "c", "T"):
            libs.TRIAL[i] = dict(pos=True)
    given = (mem, bounds, data)
    before = tuple(ndict(x) for x in given)
    kw = options(h, opts)
    if not normalized:
        kw["normalized_data"] = False
    if named:
        kw["filename"] = "result"
    got = m.fit_admr_parallel(mem, bounds, data, **kw)

    def serial(x):
        m2, d2, _, _, _ = member(h, "cut at a grid angle", fixdoping)
        b2 = VDict({p: VList([h.real("lo_" + p), h.real("hi_" + p)]) for p in free})
        return m.FittingADMRParallel(m2, b2, d2, normalized_data=normalized).compute_diff2(x)
    best = search_ok(h, [before[1][p] for p in names], serial, kw)
    spec = ndict(before[0])
    for i, p in enumerate(names):
        (spec if p in TOP else spec["band_params"] if p in BAND else spec["scattering_params"])[p] = best[i]
    saved = [n for n in CTX.notes if n[0] == "json"]
    h.check("the member is saved once", len(saved) == 1, str(len(saved)))
    if named and saved:
        h.check("saved under the given name", saved[-1][1] == "./result.json", saved[-1][1])
    members_ok(h, [("returned", got)] + [("saved", s[2]) for s in saved], spec, fixdoping)
    for name, g, w in zip(("member", "bounds", "data"), given, before):
        same_nested(h, "caller's %s dictionary unchanged" % name, g, w)


METHODS = ("least_square", "differential_evolution", "shgo", "ampgo")


@contract("C22", [SER + "__init__", SER + "runFit", SER + "compute_diff", SER + "produce_ADMR_object", SER + "save_member_to_json", SER + "fig_compare"],
          variants=[dict(free=f, named=n, normalized=a, method=METHODS[(i + n) % 4], fixdoping=2) for i, f in enumerate(FREE) for n, a in ((True, True), (False, False))] +
                   [dict(free=("t",), named=True, normalized=True, method="least_square", fixdoping=0.25)],
          bounded="listed sets of free parameters; two azimuths, two angles")
def serial_fit(h, free, named, normalized, method, fixdoping):
    """the fit in one process: the minimizer's best values end up in the member kept and saved, whatever it evaluated last"""
    mem, data, T_, phis, grid = member(h, "cut at a grid angle", fixdoping)
    m = h.mod("fitting_admr_series_oneT")
    m.BandStructure, m.Conductivity = stand_ins(h)
    bounds = VDict({p: VList([h.real("lo_" + p), h.real("hi_" + p)]) for p in free})
    for p in free:
        if p in ("a", "b", "c", "T"):
            libs.TRIAL[p] = dict(pos=True)
    given = (mem, bounds, data)
    before = tuple(ndict(x) for x in given)
    kw = {} if normalized else {"normalized_data": False}
    where = lambda d, p: d if p in TOP else d["band_params"] if p in BAND else d["scattering_params"]
    f = m.FittingADMR(mem, bounds, data, method=method, folder="out", **kw)
    f.runFit("result") if named else f.runFit()
    runs = searches("minimize")
    h.check("one minimization", len(runs) == 1, str(len(runs)))
    r = runs[-1]
    h.check("method as asked for", r["method"] == ("leastsq" if method == "least_square" else method), r["method"])
    h.check("parameters handed to the minimizer", sorted(r["start"]) == sorted(free), str(sorted(r["start"])))
    for p in free:
        v, lo, hi = r["start"][p]
        h.eq("starting value and bounds", [v, lo, hi], [where(before[0], p)[p], before[1][p][0], before[1][p][1]])
    if fixdoping == 2:
        for x, got in r["trials"]:
            spec = ndict(before[0])
            for p in free:
                where(spec, p)[p] = x[p]
            residuals_ok(h, "value of a trial", got, "series", reference(h, spec, data, T_, phis, grid, normalized))
    spec = ndict(before[0])
    for p in free:
        where(spec, p)[p] = r["best"][p]
    saved = [n for n in CTX.notes if n[0] == "json"]
    h.check("the member is saved once", len(saved) == 1, str(len(saved)))
    if named and saved:
        h.check("saved under the given name", saved[-1][1] == "out/result.json", saved[-1][1])
    members_ok(h, [("kept", f.member)] + [("saved", s[2]) for s in saved], spec, fixdoping)
    for name, g, w in zip(("member", "bounds", "data"), given, before):
        same_nested(h, "caller's %s dictionary unchanged" % name, g, w)
