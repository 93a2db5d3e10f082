from common import *

FM = "fitting_admr_parallel_multiT."
FIT = FM + "Fitness."
SIM = FM + "SimADMR."
TOP = ("energy_scale", "a", "b", "c", "Bamp", "T")
BAND = ("mu", "t")
SCAT = ("gamma_0", "gamma_k", "power")


def abstract_classes(h):
    """BandStructure and Conductivity whose long computations are replaced by functions of everything they may use"""
    B0 = h.mod("bandstructure").BandStructure
    C0 = h.mod("conductivity").Conductivity

    class Band(B0):
        def discretize_fermi_surface(self, epsilon=0):
            surface_at(self, epsilon)

        def doping(self, res_x=500, res_y=500, res_z=500, printDoping=False):
            e = [poly(x) for x in (self.energy_scale, self.a, self.b, self.c)] + [poly(self[p]) for p in sorted(self.band_params)]
            self.n = Num(FN("filling_at", *e))
            self.p = 1 - self.n
            return self.p

    class Cond(C0):
        def runTransport(self):
            b = self.bandObject
            st = [self.B_vector[q] for q in range(3)] + [self.T] + [getattr(self, p) for p in sorted(self.scattering_params)]
            st += [self.scattering_params[p] for p in sorted(self.scattering_params)]
            st += [b.energy_scale, b.a, b.b, b.c] + [b[p] for p in sorted(b.band_params)] + [b.kf[0, 0]]
            self.sigma = sigma_fn(b.band_name, st)
    return Band, Cond


def sigma_fn(tag, st):
    s = [poly(x) for x in st]
    return Arr((P(3), P(3)), lambda idx: FN("sigma_with", tag, idx[0], idx[1], *s), "f")


def sigma_ref(name, d, th, ph):
    """what the stand-in returns for a band built from the entry d, with the field at that direction"""
    t = [poly(d[x]) for x in ("energy_scale", "a", "b", "c")]
    bp = [poly(d["band_params"][p]) for p in sorted(d["band_params"])]
    kf = Num(FN("kf_at", ZERO, ZERO, ZERO, *t, *bp))
    sc = [d["scattering_params"][p] for p in sorted(d["scattering_params"])]
    st = field_ref(d["Bamp"], th, ph) + [d["T"]] + sc + sc + [d[x] for x in ("energy_scale", "a", "b", "c")]
    st += [Num(x) for x in bp] + [kf]
    return sigma_fn(name, st)


def entry(h, tag, name):
    """one band's settings at one temperature"""
    r = lambda x, **k: h.real(x + tag, **k)
    return VDict({"band_name": name, "a": r("a", pos=True), "b": r("b", pos=True), "c": r("c", pos=True), "energy_scale": r("es"),
                  "band_params": VDict({p: r(p) for p in BAND}), "band_model": "E", "resolution": VList([21, 21, 3]),
                  "k_max": VList([r("kmx", pos=True), r("kmy", pos=True), r("kmz", pos=True)]), "N_time": h.nat("Nt" + tag, 2),
                  "T": r("T", pos=True), "Bamp": r("Bamp"), "scattering_models": VList(["isotropic", "cos2phi"]),
                  "scattering_params": VDict({p: r(p) for p in SCAT})})


def model(h):
    declare_model("E", ("kx", "ky", "kz", "a", "b", "c") + BAND)


def ndict(v):
    """nested copy as plain dictionaries"""
    if isinstance(v, dict):
        return {k: ndict(x) for k, x in dict.items(v)}
    if isinstance(v, list):
        return [ndict(x) for x in v]
    return v


def same_nested(h, name, got, want, at=""):
    if isinstance(want, dict):
        ok = isinstance(got, dict) and set(dict.keys(got)) == set(want)
        h.check(name + ": same keys", ok, "at %s: %s" % (at, sorted(map(str, got)) if isinstance(got, dict) else got))
        if ok:
            for k in want:
                same_nested(h, name, dict.__getitem__(got, k), want[k], at + "/%s" % (k,))
    elif isinstance(want, list):
        ok = isinstance(got, list) and len(got) == len(want)
        h.check(name + ": same lengths", ok, "at %s: %s" % (at, got))
        if ok:
            for k, (g, w) in enumerate(zip(list(got), want)):
                same_nested(h, name, g, w, at + "/%d" % k)
    elif isnum(want) and isnum(got):
        h.eq(name, got, want)
    else:
        h.check(name, type(got) is type(want) and got == want, "at %s: %r instead of %r" % (at, got, want))


PHIS = {25: (0, 45), 6: (15,), 12: (0,)}
LAYOUTS = {
    "one": ((25,), ("A",), {25: {"A": ("gamma_0",)}}),
    "own and all": ((25, 6), ("A",), {25: {"A": ("gamma_0", "gamma_k")}, 6: {"A": ("gamma_0",)}, "all": {"A": ("mu", "power")}}),
    "all first": ((25, 6), ("A",), {"all": {"A": ("t", "energy_scale", "Bamp")}, 6: {"A": ("T",)}, 25: {"A": ("T", "gamma_k")}}),
    "only all": ((25, 6), ("A",), {"all": {"A": ("gamma_0", "mu", "a")}}),
    "lattice": ((25,), ("A",), {25: {"A": ("a", "b", "c", "Bamp", "T", "energy_scale")}}),
    "two bands": ((25, 6), ("A", "B"), {25: {"A": ("gamma_0",), "B": ("gamma_0", "mu")}, 6: {"B": ("gamma_k",)}, "all": {"A": ("c",), "B": ("t",)}}),
    "empty own": ((25, 6, 12), ("A",), {25: {}, 6: {"A": ()}, 12: {}, "all": {"A": ("mu", "gamma_0")}}),
    "three": ((6, 12, 25), ("B", "A"), {25: {"B": ("gamma_0",)}, "all": {"A": ("gamma_0", "energy_scale")}, 12: {"A": ("mu",)}, 6: {"B": ("T",)}}),
}


def dicts(h, layout):
    temps, bands, bl = LAYOUTS[layout]
    model(h)
    params = VDict({t: VDict({b: entry(h, "_%s_%s" % (t, b), b) for b in bands}) for t in temps})
    bounds = VDict({t: VDict({b: VDict({p: VList([h.real("lo_%s_%s_%s" % (t, b, p)), h.real("hi_%s_%s_%s" % (t, b, p))]) for p in ps})
                              for b, ps in bs.items()}) for t, bs in bl.items()})
    data = VDict({(t, p): VList(["file_%d_%d.dat" % (t, p), 0, 1, 0, 20, 10, h.real("thn_%s" % t), h.real("scale_%d_%d" % (t, p))])
                  for t in temps for p in PHIS[t]})
    labels = [(t, b, p) for t, bs in bl.items() for b, ps in bs.items() for p in ps]
    return temps, bands, params, bounds, data, labels


def fitness(h, layout, **kw):
    temps, bands, params, bounds, data, labels = dicts(h, layout)
    m = h.mod("fitting_admr_parallel_multiT")
    m.BandStructure, m.Conductivity = abstract_classes(h)
    given = (params, bounds, data)
    before = tuple(ndict(x) for x in given)
    f = m.Fitness(data, params, bounds, **kw)
    return f, temps, bands, labels, given, before


def set_ref(spec, temps, labels, x):
    """spec with the trial vector applied"""
    for (t, b, p), v in zip(labels, x):
        for T_ in (temps if t == "all" else (t,)):
            d = spec[T_][b]
            (d if p in d else d["band_params"] if p in d["band_params"] else d["scattering_params"])[p] = v


def vector(h, labels, kind, tag=""):
    if kind == "zeros":
        return VList([Num(ZERO) for _ in labels])
    if kind == "first zero":
        return VList([Num(ZERO) if k == 0 else h.real("x%d%s" % (k, tag)) for k in range(len(labels))])
    # a positive temperature: temperature zero is one more path, taken with the other kinds of vectors
    return VList([h.real("x%d%s" % (k, tag), pos=labels[k][2] == "T") for k in range(len(labels))])


@contract("C17", [FIT + "__init__", FIT + "update_parameters", FIT + "update_conditions"],
          variants=[dict(layout=l, kind=k, container=c) for l in LAYOUTS for k in ("any", "zeros", "first zero") for c in ("list", "array")],
          bounded="listed layouts of up to three temperatures, two bands and six free parameters")
def labels_and_vector(h, layout, kind, container):
    f, temps, bands, labels, given, before = fitness(h, layout)
    h.check("one label per free parameter, in the order of the bounds", [tuple(x) for x in f.free_params_labels] == labels, str(f.free_params_labels))
    h.check("one bound per label", len(f.bounds) == len(labels), str(f.bounds))
    for (t, b, p), lohi in zip(labels, f.bounds):
        h.eq("bounds of the labelled parameter", list(lohi), [given[1][t][b][p][0], given[1][t][b][p][1]])
    spec = ndict(given[0])
    x = vector(h, labels, kind)
    f.update_parameters(np.array(x) if container == "array" else x)
    set_ref(spec, temps, labels, x)
    same_nested(h, "exactly the labelled parameters are set", f.params_dict, spec)
    y = vector(h, labels, "any", "_second")
    f.update_parameters(y)
    set_ref(spec, temps, labels, y)
    same_nested(h, "a second vector replaces the first", f.params_dict, spec)
    for name, g, w in zip(("parameters", "bounds", "data"), given, before):
        same_nested(h, "caller's %s dictionary unchanged" % name, g, w)


def sims_ok(h, name, f, temps, bands, spec):
    for t in temps:
        sim = f.sim_obj_dict[t]
        M = f.rhozz_sim_dict[t]
        th = sim.Btheta_array
        for i, p in enumerate(PHIS[t]):
            for j in range(2):
                s = None
                for b in bands:
                    x = sigma_ref(b, spec[t][b], th[j], Num(P(p)))
                    s = x if s is None else s + x
                h.eq(name + ": simulated resistivity is that of the current parameters", M[i, j], np.linalg.inv(s)[2, 2])


@contract("C17", [FIT + "compute_fitness", SIM + "__init__", SIM + "_set_params_dict", SIM + "update_params", SIM + "compute_rhozz"],
          variants=[dict(layout=l, kind=k) for l in LAYOUTS for k in ("any", "first zero")] + [dict(layout="two bands", kind="none"), dict(layout="only all", kind="none")],
          bounded="listed layouts; two angles per azimuth")
def simulations_use_the_trial(h, layout, kind):
    f, temps, bands, labels, given, before = fitness(h, layout)
    spec = ndict(given[0])
    if kind == "none":
        f.compute_fitness()
    else:
        x = vector(h, labels, kind)
        f.compute_fitness(x)
        set_ref(spec, temps, labels, x)
    sims_ok(h, "first evaluation", f, temps, bands, spec)
    y = vector(h, labels, "any", "_second")
    f.compute_fitness(y)
    set_ref(spec, temps, labels, y)
    sims_ok(h, "second evaluation", f, temps, bands, spec)
    same_nested(h, "parameters after the evaluations", f.params_dict, spec)
    f.compute_fitness()
    sims_ok(h, "evaluation of the current parameters", f, temps, bands, spec)
    for name, g, w in zip(("parameters", "bounds", "data"), given, before):
        same_nested(h, "caller's %s dictionary unchanged" % name, g, w)


@contract("C17", [SIM + "__init__", SIM + "_set_params_dict", SIM + "update_params", SIM + "compute_rhozz"],
          variants=[dict(param=p, before=b) for p in TOP + BAND + SCAT for b in (True, False)], bounded="one or two bands")
def simulation_follows_its_parameters(h, param, before):
    """one changed entry of the parameter set reaches the simulation"""
    model(h)
    m = h.mod("fitting_admr_parallel_multiT")
    m.BandStructure, m.Conductivity = abstract_classes(h)
    bands = ("A", "B")
    params = VDict({b: entry(h, "_" + b, b) for b in bands})
    was = ndict(params)
    phis, thetas = np.array(VList([0, 30])), np.array(VList([Num(ZERO), h.real("th1")]))
    sim = m.SimADMR(params, phis, thetas)
    same_nested(h, "caller's dictionary unchanged", params, was)
    norm = h.real("norm")
    if before:
        sim.compute_rhozz(norm)
    new = VDict({b: entry(h, "_" + b, b) for b in bands})
    v = h.real("new_value", pos=param in ("a", "b", "c", "T"))
    d = new["B"]
    (d if param in TOP else d["band_params"] if param in BAND else d["scattering_params"])[param] = v
    spec = ndict(new)
    sim.params_dict = new
    sim.compute_rhozz(norm)
    same_nested(h, "dictionary given unchanged", new, spec)
    for i, p in enumerate((0, 30)):
        for j in range(2):
            s = None
            for b in bands:
                x = sigma_ref(b, spec[b], thetas[j], Num(P(p)))
                s = x if s is None else s + x
            r = np.linalg.inv(s)[2, 2]
            h.eq("resistivity with the changed parameter", sim.rhozz_sim_matrix[i, j], r)
        for j in range(2):
            h.eq("normalized at the reference angle", sim.rzz_sim_matrix[i, j], sim.rhozz_sim_matrix[i, j] / np.interp(norm, thetas, sim.rhozz_sim_matrix[i, :]))
