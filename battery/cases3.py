import os
import copy
import tempfile
from core import case, Fail
from bands import *
from cases2 import Quick, scat_params, scat_models, cond_of, same_state


def Coarse():
    """grids capped, also the rough one of the marching squares (same discretization for the reference)"""
    Q = Quick()

    class Coarse_(Q):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.res_xy_rough = 41
    return Coarse_


def member_of(rng, name, T, kinds=("cuprate", "warped")):
    """a member of a fit: the keyword arguments of one band at one temperature"""
    s = spec(rng, list(kinds))               # five slices: with three there is no velocity along z
    return {"band_name": name, "a": s["a"], "b": s["b"], "c": s["c"], "energy_scale": s["energy_scale"], "band_params": s["band_params"],
            "band_model": s["band_model"], "k_max": s["k_max"], "resolution": [int(rng.choice([7, 9])), int(rng.choice([7, 9])), 5],
            "number_of_bz": s["number_of_bz"], "N_time": 20, "T": float(T) if rng.random() < 0.3 else 0.0, "N_epsilon": 3, "dfdE_cut_percent": 0.1,
            "Bamp": float(rng.uniform(10, 50)), "Btheta": 0, "Bphi": 0, "scattering_models": scat_models(rng), "scattering_params": scat_params(rng)}


def reference_sigma(m, th, ph, cls):
    from cuprates_transport.conductivity import Conductivity
    m = copy.deepcopy(m)
    b = cls(**m, parallel=False)
    b.march_square = True
    b.runBandStructure()
    m.update(Btheta=float(th), Bphi=float(ph))
    c = Conductivity(b, **m)
    c.runTransport()
    return np.array(c.sigma)


def reference_rhozz(ms, thetas, phis, cls):
    out = np.empty((len(phis), len(thetas)))
    for i, p in enumerate(phis):
        for j, t in enumerate(thetas):
            out[i, j] = np.linalg.inv(sum(reference_sigma(m, t, p, cls) for m in ms))[2, 2]
    return out


def interp(x, xs, ys):
    """linear interpolation, constant outside"""
    x = np.atleast_1d(np.asarray(x, float))
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    X, Y = [xs[i] for i in o], [ys[i] for i in o]
    out = []
    for v in x:
        if v <= X[0]:
            out.append(Y[0])
        elif v >= X[-1]:
            out.append(Y[-1])
        else:
            k = max(i for i in range(len(X)) if X[i] <= v)
            out.append(Y[k] + (Y[k + 1] - Y[k]) * (v - X[k]) / (X[k + 1] - X[k]))
    return np.array(out)


def data_file(rng, folder, name, lo, hi):
    """a data file with the two columns anywhere and the rows in any order"""
    n = int(rng.integers(4, 12))
    th = np.round(np.sort(rng.uniform(lo - 3, hi + 3, n)), 4)
    while len(set(th)) < n:
        th = np.round(np.sort(rng.uniform(lo - 3, hi + 3, n)), 4)
    y = np.round(rng.uniform(0.5, 3, n), 5)
    if rng.random() < 0.2:
        y *= rng.choice([-1, 1], n)           # a background subtracted
    cols = int(rng.integers(2, 5))
    ct, cy = [int(x) for x in rng.choice(cols, 2, replace=False)]
    A = np.round(rng.uniform(-9, 9, (n, cols)), 3)
    A[:, ct], A[:, cy] = th, y
    A = A[rng.permutation(n)] if rng.random() < 0.6 else A[::-1]
    path = os.path.join(folder, name)
    np.savetxt(path, A, fmt="%.8f", header="some header\nmore" if rng.random() < 0.5 else "")
    return path, ct, cy, th, y


class Setup:
    """a multi-temperature problem"""

    def __init__(self, rng, folder):
        nT, nb = int(rng.choice([1, 2, 2, 3])), int(rng.choice([1, 1, 2]))
        self.Ts = [int(x) for x in rng.choice([6, 12, 20, 25, 40], nT, replace=False)]
        self.bands = [str(x) for x in rng.permutation(["LargePocket", "SmallPocket"])][:nb]
        base = {b: member_of(rng, b, 0) for b in self.bands}
        self.params = {}
        for T in self.Ts:
            self.params[T] = {}
            for b in self.bands:
                m = copy.deepcopy(base[b])
                m["T"] = float(T) if m["T"] else 0.0
                m["scattering_params"] = scat_params(rng)
                self.params[T][b] = m
        self.data, self.curves = {}, {}
        pairs = []
        for T in self.Ts:
            for p in rng.choice([0, 15, 30, 45], int(rng.integers(1, 4)), replace=False):
                pairs.append((T, int(p)))
        pairs = [pairs[i] for i in rng.permutation(len(pairs))]
        norm = {T: float(rng.choice([0, 5, 10])) for T in self.Ts}
        for T, p in pairs:
            lo, step = float(rng.choice([0, -10, 5])), float(rng.choice([10, 15, 20]))
            hi = lo + step * int(rng.integers(2, 4)) + float(rng.choice([0, 4]))
            path, ct, cy, th, y = data_file(rng, folder, "d%d_%d.dat" % (T, p), lo, hi)
            self.data[T, p] = [path, ct, cy, lo, hi, step, norm[T], float(rng.uniform(0.5, 3))]
            self.curves[T, p] = (th, y)
        self.norm = norm
        names = ["gamma_0", "gamma_k", "power", "mu", "energy_scale", "a", "c", "Bamp", "b"]
        self.bounds = {}
        per = [str(x) for x in rng.choice(names, int(rng.integers(0, 4)), replace=False)]
        shared = [n for n in [str(x) for x in rng.choice(names, int(rng.integers(0, 4)), replace=False)] if n not in per]
        if not per and not shared:
            shared = ["gamma_0", "mu"]
        if not per and len(self.Ts) > 1 and rng.random() < 0.7:
            per = [n for n in ["gamma_k", "Bamp"] if n not in shared][:1]
        order = [T for T in self.Ts] if per else []
        order += ["all"] if shared else []
        order = [order[i] for i in rng.permutation(len(order))]
        self.bounds = {T: {b: {n: [float(rng.uniform(-5, 0)), float(rng.uniform(1, 9))] for n in (shared if T == "all" else per)}
                           for b in self.bands if not (len(self.bands) > 1 and rng.random() < 0.2)} for T in order}

    def value(self, rng, T, b, n):
        m = self.params[self.Ts[0] if T == "all" else T][b]
        if n in m:
            return float(m[n] * rng.uniform(0.85, 1.15))
        if n in m["band_params"]:
            return float(m["band_params"][n] * rng.uniform(0.96, 1.04))
        if n == "gamma_k" and rng.random() < 0.5:
            return 0.0
        return float(rng.uniform(2, 20))

    def phis(self, T):
        return [p for t, p in self.data if t == T]

    def thetas(self, T):
        rows = [self.data[T, p] for p in self.phis(T)]
        lo, hi, st = min(r[3] for r in rows), max(r[4] for r in rows), min(r[5] for r in rows)
        return np.linspace(lo, hi, int((hi - lo) / st))


def put(d, T, b, n, x):
    m = d[T][b]
    if n in m:
        m[n] = x
    elif n in m["band_params"]:
        m["band_params"][n] = x
    else:
        m["scattering_params"][n] = x


def same_dict(ck, name, got, want):
    ck.true(name, repr(plain(got)) == repr(plain(want)), "%r instead of %r" % (plain(got), plain(want)))


def plain(v):
    if isinstance(v, dict):
        return {k: plain(v[k]) for k in sorted(v, key=str)}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    if isinstance(v, (np.floating, float, int, np.integer)) and not isinstance(v, bool):
        return float(v)
    return v


def multi(rng, ck, normalized):
    """Fitness object with the counting grids capped, together with its setting"""
    import cuprates_transport.fitting_admr_parallel_multiT as F
    cls = F.BandStructure = Coarse()
    d = tempfile.TemporaryDirectory()
    s = Setup(rng, d.name)
    ck.inp(params=s.params, bounds=s.bounds, data={str(k): v[1:] for k, v in s.data.items()}, curves={str(k): [list(x) for x in v] for k, v in s.curves.items()}, normalized=normalized)
    given = copy.deepcopy((s.data, s.params, s.bounds))
    f = F.Fitness(s.data, s.params, s.bounds, normalized_data=normalized)
    return s, f, given, cls, d


def data_want(s, T, normalized):
    out = []
    for p in s.phis(T):
        th, y = s.curves[T, p]
        v = interp(s.thetas(T), th, y)
        out.append(v / interp(s.norm[T], th, y) if normalized else v * s.data[T, p][7])
    return np.array(out)


@case("C17", 24, 150)
def trials(rng, ck):
    s, f, given, cls, d = multi(rng, ck, bool(rng.random() < 0.5))
    with d:
        labels = [(T, b, n) for T in s.bounds for b in s.bounds[T] for n in s.bounds[T][b]]
        got = [tuple(x) for x in f.free_params_labels]
        ck.true("one label per free parameter", sorted(got, key=str) == sorted(labels, key=str), (got, labels))
        ck.eq("one bound per label", len(f.bounds), len(got))
        for (T, b, n), bd in zip(got, f.bounds):
            ck.close("bounds of %s" % n, list(bd), s.bounds[T][b][n])
        want = copy.deepcopy(s.params)
        used = [T for T in s.bounds if T != "all"] or list(s.params)
        for again in range(2):
            x = np.array([s.value(rng, *l) for l in got])
            ck.inp(x=x, labels=got, again=again)
            for (T, b, n), v in zip(got, x):
                for t in (used if T == "all" else [T]):
                    put(want, t, b, n, float(v))
            f.update_parameters(x) if rng.random() < 0.3 else f.compute_fitness(x)
            same_dict(ck, "trial values", f.params_dict, want)
            f.compute_fitness()
            for T in used:
                ref_ = reference_rhozz([want[T][b] for b in s.bands], s.thetas(T), s.phis(T), cls)
                ck.close("simulation at %s K uses the trial" % T, f.rhozz_sim_dict[T], ref_, 1e-6, 1e-8)
        for a, b, n in zip((s.data, s.params, s.bounds), given, ("data", "parameters", "bounds")):
            ck.true("caller's %s unchanged" % n, repr(a) == repr(b), "%r became %r" % (b, a))


@case("C18", 30, 200)
def objective(rng, ck):
    normalized = bool(rng.random() < 0.5)
    s, f, given, cls, d = multi(rng, ck, normalized)
    with d:
        used = [T for T in s.bounds if T != "all"] or list(s.params)
        total = 0.0
        chi = f.compute_fitness()
        for T in used:
            ck.close("azimuths at %s K" % T, f.phis_dict[T], s.phis(T))
            ck.close("angle grid at %s K" % T, f.thetas_dict[T], s.thetas(T), 1e-9, 1e-9)
            for k, name in ((True, "rzz_data_dict"), (False, "rhozz_data_dict")):
                ck.close("data (%s) at %s K" % (name, T), getattr(f, name)[T], data_want(s, T, k), 1e-7)
            ref_ = reference_rhozz([s.params[T][b] for b in s.bands], s.thetas(T), s.phis(T), cls)
            if normalized:
                ref_ = np.array([r / interp(s.norm[T], list(s.thetas(T)), list(r)) for r in ref_])
            total += ((data_want(s, T, normalized) - ref_) ** 2).sum()
        ck.close("objective", float(chi), total, 1e-6)
        ck.true("never negative", chi >= 0, chi)
        # the data are the simulation: the objective vanishes
        for T in used:
            f.rzz_data_dict[T], f.rhozz_data_dict[T] = np.array(f.rzz_sim_dict[T]), np.array(f.rhozz_sim_dict[T])
        ck.true("zero where they agree", f.compute_fitness() <= 1e-12 * (1 + total), "not zero")


def arange_of(lo, hi, st):
    out, k = [], 0
    while lo + k * st < hi + st - 1e-9:
        out.append(lo + k * st)
        k += 1
    return out


@case("C19", 30, 200)
def single_fit(rng, ck):
    parallel = bool(rng.random() < 0.5)
    normalized = bool(rng.random() < 0.6)
    if parallel:
        import cuprates_transport.fitting_admr_parallel_oneT as F
    else:
        import cuprates_transport.fitting_admr_series_oneT as F
    cls = F.BandStructure = Coarse()
    with tempfile.TemporaryDirectory() as folder:
        T_ = int(rng.choice([6, 12, 25]))
        m = member_of(rng, "band", T_)
        m.update(number_of_bz=1, fixdoping=2, data_T=T_, data_p=0.2, Btheta_min=float(rng.choice([0, -10, 5])), Btheta_step=float(rng.choice([10, 15])), Btheta_norm=0)
        m["Btheta_max"] = m["Btheta_min"] + m["Btheta_step"] * int(rng.integers(2, 4))
        phis = [int(x) for x in rng.choice([0, 15, 30, 45], int(rng.integers(1, 4)), replace=False)]
        m["Bphi_array"] = list(phis)
        data, curves = {}, {}
        pairs = [(T_, p) for p in phis] + [(t, p) for t, p in ((3, 0), (T_, 60), (3, phis[0])) if rng.random() < 0.5]
        pairs = [pairs[i] for i in rng.permutation(len(pairs))]
        grid = arange_of(m["Btheta_min"], m["Btheta_max"], m["Btheta_step"])
        for t, p in pairs:
            path, ct, cy, th, y = data_file(rng, folder, "d%d_%d.dat" % (t, p), m["Btheta_min"], m["Btheta_max"])
            cut = float(rng.choice([90, grid[1], m["Btheta_max"] - 1])) if (t, p) in [(T_, q) for q in phis] else float(rng.choice([90, grid[0]]))
            data[t, p] = [path, ct, cy, cut, float(rng.uniform(0.5, 3) * 1e-5)]
            curves[t, p] = th, y
        phis = sorted(phis)
        cut = min(data[T_, p][3] for p in phis)
        grid = [t for t in grid if t <= cut]
        names = ["gamma_0", "gamma_k", "power", "mu", "energy_scale", "a", "c", "Bamp", "b", "T"]
        free = {str(n): [-1.0, 100.0] for n in rng.choice(names, int(rng.integers(1, 5)), replace=False)}
        ck.inp(parallel=parallel, member=m, data={str(k): v[1:] for k, v in data.items()}, curves={str(k): [list(x) for x in v] for k, v in curves.items()}, free=free, normalized=normalized)
        zero = [n for n in ("tpp", "tz") if n in m["band_params"]]
        if zero and rng.random() < 0.4:
            n = str(rng.choice(zero))
            m["band_params"][n] = 0.0
            free[n] = [-1.0, 1.0]
        ck.inp(member=m, free=free)
        given = copy.deepcopy((m, free, data))
        kw = dict(normalized_data=normalized, folder=folder)
        f = F.FittingADMRParallel(m, free, data, **kw) if parallel else F.FittingADMR(m, free, data, **kw)
        rzz = np.array([interp(grid, *curves[T_, p]) / interp(0, *curves[T_, p]) for p in phis])
        want_m = copy.deepcopy(m)
        for again in range(2):
            x = {}
            for n in free:
                if n in m and n != "T":
                    x[n] = float(m[n] * rng.uniform(0.9, 1.1))
                elif n == "T":
                    x[n] = float(rng.choice([0.0, 9.0]))
                elif n in m["band_params"]:
                    x[n] = float(m["band_params"][n] * rng.uniform(0.96, 1.04)) or float(rng.uniform(0.03, 0.08))
                else:
                    x[n] = 0.0 if n == "gamma_k" and rng.random() < 0.5 else float(rng.uniform(2, 20))
                put({0: {0: want_m}}, 0, 0, n, x[n])
            ck.inp(x=x, again=again)
            if parallel:
                got = f.compute_diff2(np.array([x[n] for n in f.free_pars_name]))
                ck.eq("bounds in the order of the names", [tuple(b) for b in f.bounds], [tuple(free[n]) for n in f.free_pars_name])
            else:
                from lmfit import Parameters
                ps = Parameters()
                for n in free:
                    ps.add(n, value=x[n], min=-10, max=1000)
                got = f.compute_diff(ps)
            ck.close("azimuths", f.Bphi_array, phis)
            ck.close("angle grid", f.Btheta_array, grid, 1e-9, 1e-9)
            ck.close("normalized data", f.rzz_data_matrix, rzz, 1e-7)
            for n in free:
                src = f.member if n in m else f.member["band_params"] if n in m["band_params"] else f.member["scattering_params"]
                ck.close("trial value of " + n, src[n], x[n])
            sim = reference_rhozz([want_m], grid, phis, cls)
            if normalized:
                D = rzz - np.array([r / interp(0, grid, list(r)) for r in sim])
            else:
                D = (rzz * np.array([[data[T_, p][4]] for p in phis]) - sim) * 1e5
            if parallel:
                ck.close("sum of squared residuals", float(got), (D ** 2).sum(), 1e-5)
            else:
                ck.close("residuals", got, D.flatten(), 1e-5, 1e-6)
        ck.true("caller's objects unchanged", repr((m, free, data)) == repr(given), "changed")
