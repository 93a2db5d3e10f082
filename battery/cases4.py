"""fits run to their end: worker processes, the optimizer's result, what is returned and saved"""
import os
import sys
import copy
import json
import tempfile
import multiprocessing
from core import case, Fail
from bands import *
from cases2 import scat_params
from cases3 import Coarse, Setup, member_of, reference_rhozz, interp, put, same_dict, data_want, data_file, arange_of


class Fits:
    """real optimizer and worker processes, few generations; what the workers returned is recorded"""

    def __init__(self, F, seed, generations):
        self.F, self.seed, self.gen = F, seed, generations
        self.evals, self.runs = [], []

    def __enter__(self):
        import numba
        import scipy.optimize
        self.nb, self.jit = numba.config, numba.config.DISABLE_JIT
        self.nb.DISABLE_JIT = 0                                   # compiled functions are what can be sent to workers
        self.cfg = multiprocessing.current_process()._config
        self.daemon = self.cfg.get("daemon")
        self.cfg["daemon"] = False
        self.opt = scipy.optimize
        self.real = self.opt.differential_evolution
        self.kept = {}
        self.opt.differential_evolution = self.search
        if hasattr(self.F, "differential_evolution"):
            self.F.differential_evolution = self.search
        cls = Coarse()
        cls.__qualname__ = cls.__name__ = "Coarse_"
        cls.__module__ = __name__
        globals()["Coarse_"] = cls
        self.F.BandStructure = self.cls = cls
        self.cwd = os.getcwd()
        self.dir = tempfile.TemporaryDirectory()
        os.chdir(self.dir.name)
        return self

    def search(self, func, bounds, *a, **k):
        k["maxiter"], k["seed"] = self.gen, self.seed
        w = k.get("workers", 1)

        def rec(f, xs):
            xs = [np.array(x, float) for x in xs]
            vals = list(w(f, xs))
            self.evals += [(x, float(v)) for x, v in zip(xs, vals)]
            return vals
        if callable(w):
            k["workers"] = rec
        res = (self.real if self.seed % 2 else self.plain)(func, bounds, *a, **k)
        self.runs.append((np.array(res.x, float), [tuple(map(float, b)) for b in bounds], {q: k.get(q) for q in ("popsize", "mutation", "recombination")}))
        return res

    def plain(self, func, bounds, *a, workers=1, callback=None, **k):
        """a search of its own: three generations whose trials keep components of the best so far; the last is not the best"""
        rnd = np.random.default_rng(self.seed)
        lo, hi = np.array([[float(b[0]), float(b[1])] for b in bounds]).T
        run = workers if callable(workers) else lambda f, xs: [f(x) for x in xs]
        best = None
        for g in range(4):
            xs = [lo + (hi - lo) * rnd.random(len(lo)) for _ in range(2 if g else 3)]
            if best is not None:
                for x in xs:
                    j = int(rnd.integers(len(x)))
                    x[j] = best[0][j]
            vals = [float(v) for v in run(func, xs)]
            i = int(np.argmin(vals))
            if best is None or vals[i] < best[1]:
                best = np.array(xs[i]), vals[i]
            if callback is not None and callback(np.array(best[0]), 0.1 * (g + 1)):
                break
        return self.opt.OptimizeResult(x=best[0], fun=best[1], success=True, nit=g + 1, nfev=len(self.evals), message="done")

    def __exit__(self, *a):
        self.opt.differential_evolution = self.real
        if hasattr(self.F, "differential_evolution"):
            self.F.differential_evolution = self.real
        self.nb.DISABLE_JIT = self.jit
        for p in multiprocessing.active_children():
            p.terminate()
        if self.daemon is not None:
            self.cfg["daemon"] = self.daemon
        os.chdir(self.cwd)
        self.dir.cleanup()


def reference(*a):
    """the reference is computed without compiling"""
    import numba
    was, numba.config.DISABLE_JIT = numba.config.DISABLE_JIT, 1
    try:
        return reference_rhozz(*a)
    finally:
        numba.config.DISABLE_JIT = was


def search_ok(ck, f, bounds, kw, want):
    ck.eq("one search", len(f.runs), 1)
    x, b, opts = f.runs[0]
    ck.close("bounds searched", np.array(b), np.array(bounds, float))
    for k in ("popsize", "recombination", "mutation"):
        ck.close("option %s handed on" % k, np.array(opts[k], float), np.array(kw.get(k, {"popsize": 15, "recombination": 0.7, "mutation": (0.5, 1)}[k]), float))
    if f.evals:
        best = min(f.evals, key=lambda e: e[1])
        ck.true("the search returns its lowest trial", any(v <= best[1] and np.allclose(e, x, rtol=1e-12, atol=0) for e, v in f.evals), "%r instead of %r" % (x, best[0]))
        picks = {0, len(f.evals) - 1, len(f.evals) // 2}
        for i in sorted(picks):
            ck.close("value of trial %d computed by a worker" % i, f.evals[i][1], want(f.evals[i][0]), 1e-5)
    return x


def options(rng):
    kw = {"popsize": int(rng.choice([1, 2])), "num_cpu": int(rng.choice([1, 2, 3])), "percent_workers": float(rng.choice([100, 60, 20]))}
    if rng.random() < 0.5:
        kw["mutation"], kw["recombination"] = (0.4, 0.9), 0.6
    return kw


@case("C22", 8, 80)
def several_temperatures(rng, ck):
    import cuprates_transport.fitting_admr_parallel_multiT as F
    normalized = bool(rng.random() < 0.6)
    with Fits(F, int(rng.integers(1000)), 1 + int(rng.random() < 0.2)) as fits:
        s = Setup(rng, fits.dir.name)
        labels = [(T, b, n) for T in s.bounds for b in s.bounds[T] for n in s.bounds[T][b]]
        if not labels:
            s.bounds = {"all": {s.bands[0]: {"gamma_0": [1, 9]}}}
            labels = [("all", s.bands[0], "gamma_0")]
        for T, b, n in labels[2:]:
            del s.bounds[T][b][n]
        labels = labels[:2]
        for T in s.params:
            for b in s.bands:
                s.params[T][b]["T"] = float(T) if rng.random() < 0.15 else 0.0
        for T, b, n in labels:
            s.bounds[T][b][n] = sorted(s.value(rng, T, b, n) for _ in range(2)) if n != "gamma_0" else [5.0, 20.0]
            if s.bounds[T][b][n][0] == s.bounds[T][b][n][1]:
                s.bounds[T][b][n][1] += 1.0
        if rng.random() < 0.5:
            for T, b, n in labels:
                s.bounds[T][b][n] = tuple(s.bounds[T][b][n])
        kw = options(rng)
        if not normalized:
            kw["normalized_data"] = False
        ck.inp(params=s.params, bounds={str(k): v for k, v in s.bounds.items()}, data={str(k): v[1:] for k, v in s.data.items()},
               curves={str(k): [list(x) for x in v] for k, v in s.curves.items()}, options=kw, seed=fits.seed, generations=fits.gen)
        given = repr((s.params, s.bounds, s.data))
        got = F.fit_admr_parallel(s.params, s.bounds, s.data, **kw)
        used = [T for T in s.bounds if T != "all"] or list(s.params)

        def at(x):
            p = copy.deepcopy(s.params)
            for (T, b, n), v in zip(labels, x):
                for t in (used if T == "all" else [T]):
                    put(p, t, b, n, float(v))
            return p

        def sims(p):
            out = {}
            for T in used:
                r = reference([p[T][b] for b in s.bands], s.thetas(T), s.phis(T), fits.cls)
                out[T] = np.array([y / interp(s.norm[T], list(s.thetas(T)), list(y)) for y in r]) if normalized else r
            return out

        def objective(x):
            r = sims(at(x))
            return sum(((data_want(s, T, normalized) - r[T]) ** 2).sum() for T in used)
        x = search_ok(ck, fits, [s.bounds[T][b][n] for T, b, n in labels], kw, objective)
        same_dict(ck, "parameters returned", got.params_dict, at(x))
        got.save_member_to_json("result", fits.dir.name)
        with open(os.path.join(fits.dir.name, "result.json")) as file:
            same_dict(ck, "parameters saved", json.load(file), json.loads(json.dumps(at(x))))
        r = sims(at(x))
        for T in used:
            ck.close("simulation returned", (got.rzz_sim_dict if normalized else got.rhozz_sim_dict)[T], r[T], 1e-6, 1e-8)
        ck.true("caller's dictionaries unchanged", repr((s.params, s.bounds, s.data)) == given, "changed")


def one_setting(rng, folder):
    T_ = int(rng.choice([6, 12, 25]))
    m = member_of(rng, "band", T_)
    m["T"] = float(T_) if rng.random() < 0.15 else 0.0
    m.update(number_of_bz=1, fixdoping=2, data_T=T_, data_p=0.2, Btheta_min=0.0, Btheta_step=10.0, Btheta_max=20.0, Btheta_norm=0)
    phis = [int(x) for x in rng.choice([0, 15, 30, 45], int(rng.integers(1, 3)), replace=False)]
    m["Bphi_array"] = list(phis)
    data, curves = {}, {}
    for p in phis:
        path, ct, cy, th, y = data_file(rng, folder, "d%d.dat" % p, 0, 20)
        data[T_, p] = [path, ct, cy, float(rng.choice([90, 20])), float(rng.uniform(0.5, 3) * 1e-5)]
        curves[p] = th, y
    names = ["gamma_0", "gamma_k", "mu", "energy_scale", "c", "Bamp"]
    free = {}
    for n in [str(x) for x in rng.choice(names, int(rng.integers(1, 4)), replace=False)]:
        v = m[n] if n in m else m["band_params"][n] if n in m["band_params"] else None
        free[n] = sorted([float(v * 0.96), float(v * 1.04)]) if v is not None else [4.0, 20.0]
    if rng.random() < 0.5:
        free = {n: tuple(v) for n, v in free.items()}
    return m, data, curves, sorted(phis), arange_of(0.0, 20.0, 10.0), free, T_


def one_reference(m, data, curves, phis, grid, T_, normalized, cls):
    rzz = np.array([interp(grid, *curves[p]) / interp(0, *curves[p]) for p in phis])
    sim = reference([m], grid, phis, cls)
    if normalized:
        return ((rzz - np.array([r / interp(0, grid, list(r)) for r in sim])) ** 2).sum()
    return (((rzz * np.array([[data[T_, p][4]] for p in phis]) - sim) * 1e5) ** 2).sum()


def member_ok(ck, what, got, want):
    for k in want:
        if k in ("Bphi_array", "Btheta_min", "Btheta_max", "Btheta_step"):
            continue
        ck.true("%s member has %s" % (what, k), k in got, sorted(got))
        ck.true("%s member: %s" % (what, k), repr(plain_(got[k])) == repr(plain_(want[k])), "%r instead of %r" % (got[k], want[k]))


def plain_(v):
    from cases3 import plain
    return plain(v)


@case("C22", 8, 80)
def one_temperature(rng, ck):
    import cuprates_transport.fitting_admr_parallel_oneT as F
    normalized = bool(rng.random() < 0.6)
    with Fits(F, int(rng.integers(1000)), 1 + int(rng.random() < 0.2)) as fits:
        m, data, curves, phis, grid, free, T_ = one_setting(rng, fits.dir.name)
        kw = options(rng)
        if not normalized:
            kw["normalized_data"] = False
        if rng.random() < 0.6:
            kw["filename"] = "result"
        ck.inp(member=m, free=free, data={str(k): v[1:] for k, v in data.items()}, curves={str(k): [list(x) for x in v] for k, v in curves.items()},
               options=kw, seed=fits.seed, generations=fits.gen)
        given = repr((m, free, data))
        got = F.fit_admr_parallel(m, free, data, **kw)
        names = sorted(free)

        def at(x):
            p = copy.deepcopy(m)
            for n, v in zip(names, x):
                put({0: {0: p}}, 0, 0, n, float(v))
            return p
        x = search_ok(ck, fits, [free[n] for n in names], kw, lambda x: one_reference(at(x), data, curves, phis, grid, T_, normalized, fits.cls))
        member_ok(ck, "returned", got, at(x))
        saved = [f for f in os.listdir(".") if f.endswith(".json")]
        ck.eq("one member saved", len(saved), 1)
        if "filename" in kw:
            ck.eq("saved under the given name", saved[0], "result.json")
        member_ok(ck, "saved", json.load(open(saved[0])), at(x))
        ck.true("caller's dictionaries unchanged", repr((m, free, data)) == given, "changed")


@case("C22", 8, 80)
def serial_fit(rng, ck):
    import cuprates_transport.fitting_admr_series_oneT as F
    normalized = bool(rng.random() < 0.6)
    with Fits(F, 0, 1) as fits:
        m, data, curves, phis, grid, free, T_ = one_setting(rng, fits.dir.name)
        name = "result" if rng.random() < 0.6 else None
        method = str(rng.choice(["least_square", "differential_evolution"]))
        ck.inp(member=m, free=free, data={str(k): v[1:] for k, v in data.items()}, curves={str(k): [list(x) for x in v] for k, v in curves.items()},
               method=method, name=name)
        given = repr((m, free, data))
        outs, evals = [], []
        real = F.minimize

        def minimize(fcn, params, *a, **k):
            ck.true("free parameters handed to the minimizer", sorted(params) == sorted(free), sorted(params))

            def rec(p, *b, **c):
                r = np.array(fcn(p, *b, **c), float)
                evals.append(({n: float(p[n].value) for n in free}, float((r ** 2).sum())))
                return r
            out = real(rec, params, *a, **dict(k, max_nfev=6))
            q = copy.deepcopy(out.params)                  # its last evaluation is not the one it found best
            for n in free:
                q[n].value = free[n][0] + 0.37 * (free[n][1] - free[n][0])
            fcn(q, *k.get("args", ()), **(k.get("kws") or {}))
            outs.append({n: float(out.params[n].value) for n in free})
            return out
        F.minimize = minimize
        try:
            f = F.FittingADMR(m, free, data, method=method, folder=fits.dir.name, normalized_data=normalized)
            f.runFit(filename=name)
        finally:
            F.minimize = real
        ck.eq("one minimization", len(outs), 1)

        def at(x):
            p = copy.deepcopy(m)
            for n in free:
                put({0: {0: p}}, 0, 0, n, float(x[n]))
            return p
        for i in {0, len(evals) - 1}:
            ck.close("objective", evals[i][1], one_reference(at(evals[i][0]), data, curves, phis, grid, T_, normalized, fits.cls), 1e-5)
        member_ok(ck, "final", f.member, at(outs[0]))
        saved = [q for q in os.listdir(".") if q.endswith(".json")]
        ck.eq("one member saved", len(saved), 1)
        if name:
            ck.eq("saved under the given name", saved[0], name + ".json")
        member_ok(ck, "saved", json.load(open(saved[0])), at(outs[0]))
        ck.true("caller's dictionaries unchanged", repr((m, free, data)) == given, "changed")
