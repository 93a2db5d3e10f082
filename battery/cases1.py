from core import case, Fail
from bands import *


# ---------------------------------------------------------------- C01
def expression(rng, names):
    """a random dispersion built from smooth pieces"""
    def term():
        p = rng.choice(names)
        f = [lambda: "cos(%d*a*kx)" % rng.integers(1, 3), lambda: "cos(b*ky/%d)" % rng.integers(1, 3), lambda: "sin(c*kz/2)", lambda: "cos(a*kx + b*ky)",
             lambda: "kx**2", lambda: "ky*kz", lambda: "exp(-a*kx**2/4)", lambda: "sin(a*kx)**2", lambda: "sqrt(4 + cos(b*ky))", lambda: "kz**3"]
        k = rng.integers(1, 4)
        return "%s%s*%s" % (rng.choice(["+ ", "- "]), p, "*".join(f[rng.integers(len(f))]() for _ in range(k)))
    ts = [term() for _ in range(rng.integers(2, 6))]
    if rng.random() < 0.3:
        ts = [t for t in ts if "kz" not in t] or ["+ %s*cos(a*kx)" % names[0]]
    if rng.random() < 0.2:
        ts = [t for t in ts if "ky" not in t] or ["+ %s*kx**2" % names[0]]
    if rng.random() < 0.25:
        # a component of the velocity that is constant
        q = "kx" if rng.random() < 0.5 else "kz"
        ts = [t for t in ts if q not in t] + ["%s %s*%s" % (rng.choice(["+", "-"]), rng.choice([names[-1] + "*sqrt(a)", names[0] + "*c", "0.75"]), q)]
    return "- mu " + " ".join(ts)


@case("C01", 60, 600)
def energy_and_velocity(rng, ck):
    pool = ["t", "tp", "mu", "tz", "tpp", "A1", "a1", "B2", "zeta0", "x", "Delta", "m_1", "W", "aa", "t10", "t2", "E", "I", "S", "N", "beta", "gamma", "Q"]
    names = ["mu"] + [str(x) for x in rng.choice([p for p in pool if p != "mu"], rng.integers(1, 6), replace=False)]
    model = expression(rng, names)
    a, b, c = lattice(rng)
    s = dict(band_model=model, a=a, b=b, c=c, energy_scale=rng.uniform(1, 300), band_params=shuffled(rng, {n: float(rng.uniform(-2, 2)) for n in names}),
             k_max=[pi, pi, 2 * pi], resolution=[11, 11, 3], number_of_bz=1)
    ck.inp(**s)
    B = make(s, parallel=bool(rng.random() < 0.5))
    for stage in range(4):
        r = ref(s)
        for shape in (None, (), (7,), (3, 4), (2, 3, 2)):
            k = [float(rng.uniform(-1, 1)) if shape is None else rng.uniform(-1, 1, shape) for _ in range(3)]
            ck.close("energy", np.asarray(B.energy_func(*k), float) + 0 * k[0], r.E(*k), 1e-9, 1e-11)
            v = B.velocity_func(*k)
            for q, (x, y) in enumerate(zip(v, r.v(*k))):
                if q and not ("kyz"[q] in model or "k" + "xyz"[q] in model):
                    ck.true("velocity component %d is zero" % q, not np.any(x), x)
                    ck.eq("zeros shaped like the input", np.shape(x), shape or ())
                ck.close("velocity component %d" % q, np.asarray(x, float) + 0 * k[0], np.real(y), 1e-8, 1e-10)
        # change something and look again
        what = rng.integers(5)
        n = str(rng.choice(names))
        x = float(rng.choice([rng.uniform(-2, 2), 0.0]))
        if what == 0:
            B[n] = x
            s["band_params"][n] = x
        elif what == 1:
            s["energy_scale"] = B.energy_scale = float(rng.uniform(1, 300))
        elif what == 2:
            s["band_params"] = shuffled(rng, {m: float(rng.uniform(-2, 2)) for m in names})
            B.band_params = dict(s["band_params"])
        elif what == 3:
            s["a"] = B.a = float(rng.uniform(2, 5))
            s["c"] = B.c = float(rng.uniform(2, 5))
        else:
            B.set_band_param(n, x)
            s["b"] = B.b = float(rng.uniform(2, 5))
            s["band_params"][n] = x


@case("C01", 4, 40)
def compiled(rng, ck):
    """with numba's compiler on: constant and vanishing components, scalars and arrays"""
    import numba
    s = spec(rng, ["warped", "plane"])
    extra = str(rng.choice(["", " + 0.5*kz", " + t*kz/c", " - sqrt(a)*t*kz"]))
    if extra:
        s["band_model"] = s["band_model"].replace(" - 2*tz*cos(c*kz/2)", "") + extra
    ck.inp(**s)
    old = numba.config.DISABLE_JIT
    numba.config.DISABLE_JIT = 0
    try:
        B = make(s, parallel=bool(rng.random() < 0.3))
        r = ref(s)
        for shape in (None, (5,), (3, 2)):
            k = [float(rng.uniform(-1, 1)) if shape is None else rng.uniform(-1, 1, shape) for _ in range(3)]
            ck.close("energy", np.asarray(B.energy_func(*k), float) + 0 * k[0], r.E(*k), 1e-9, 1e-11)
            for q, (x, y) in enumerate(zip(B.velocity_func(*k), r.v(*k))):
                ck.close("velocity component %d" % q, x, np.real(y), 1e-8, 1e-10)
                ck.eq("shape of component %d" % q, np.shape(x), shape or ())
    finally:
        numba.config.DISABLE_JIT = old


# ---------------------------------------------------------------- C02
FSQ = ("kf", "vf", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "n", "p")


def current(ck, B, s, cls, tag, dopings=None):
    """every held quantity is absent or what a fresh band computes"""
    held = {q: getattr(B, q) for q in FSQ if getattr(B, q) is not None}
    if not held:
        ck.n += 1
        return
    F = make(s, cls)
    F.march_square = B.march_square
    F.res_xy_rough = B.res_xy_rough
    try:
        F.runBandStructure()
        F.dos_epsilon_func()
        if F.march_square:
            F.mass_func()
    except Exception:
        F = None            # no Fermi surface with the current parameters: then none may be held
    for q, x in held.items():
        if F is None and q in ("n", "p"):
            continue
        y = getattr(F, q) if F is not None else None
        if y is None:
            raise Fail("%s: %s is held but not computed from the current parameters" % (tag, q))
        ck.close("%s: %s" % (tag, q), x, y, 1e-9, 1e-11)


@case("C02", 60, 600)
def histories(rng, ck):
    cls = small(15)
    s = spec(rng, ["cuprate", "warped", "plane"])
    s["resolution"] = [9, 9, 5]
    B = make(s, cls)
    B.march_square = bool(rng.random() < 0.5)
    B.res_xy_rough = 31
    names = list(s["band_params"])
    ops = []
    ck.inp(spec=s, march_square=B.march_square, ops=ops)
    for step in range(12):
        op = str(rng.choice(["run", "run", "derived", "doping", "item", "zero", "method", "undeclared", "replace", "scale", "solve", "diff", "mutate", "sign", "signs", "swap", "slight"]))
        ops.append(op)
        ck.inp(ops=ops)
        before = {q: getattr(B, q) for q in FSQ}
        n = str(rng.choice(names))
        x = float(s["band_params"][n] * rng.uniform(0.8, 1.2))
        try:
            if op == "run":
                B.runBandStructure()
            elif op == "derived" and B.kf is not None:
                B.dos_epsilon_func()
                if B.march_square:
                    B.mass_func()
            elif op == "doping":
                B.doping()
        except Exception:
            if op in ("run", "derived"):
                try:
                    F = make(s, cls)
                    F.march_square, F.res_xy_rough = B.march_square, B.res_xy_rough
                    F.runBandStructure()
                except Exception:
                    return      # no Fermi surface for these parameters
            raise
        if op == "item":
            B[n] = x
            s["band_params"][n] = x
        elif op == "zero":
            n = str(rng.choice([m for m in names if m in ("tpp", "tz", "tp")] or ["mu"]))
            B[n] = 0
            s["band_params"][n] = 0
        elif op == "method":
            B.set_band_param(n, x)
            s["band_params"][n] = x
        elif op == "sign":
            s["band_params"][n] = B[n] = -s["band_params"][n]
        elif op in ("signs", "swap", "slight"):
            d = dict(s["band_params"])
            if op == "signs":
                d[n] = -d[n]
            elif op == "slight":
                d[n] *= 1 + 1e-6
            else:
                m = str(rng.choice(names))
                d[n], d[m] = d[m], d[n]
            B.band_params = d
            s["band_params"] = dict(d)
        elif op == "undeclared":
            if rng.random() < 0.5:
                B["nothere"] = 1.5
            else:
                B.set_band_param("nothere", 1.5)
            for q in FSQ:
                ck.true("undeclared name left %s alone" % q, getattr(B, q) is before[q])
            ck.true("undeclared name not added", sorted(B.band_params) == sorted(names), sorted(B.band_params))
        elif op in ("replace", "mutate"):
            d = {m: float(v * rng.uniform(0.9, 1.1)) for m, v in s["band_params"].items()}
            B.band_params = d
            s["band_params"] = dict(d)
            if op == "mutate":
                B.runBandStructure() if False else None
                d[n] = 77.0
        elif op == "scale":
            s["energy_scale"] = B.energy_scale = float(rng.uniform(20, 300))
        elif op == "solve":
            try:
                B.set_mu_to_doping(float(rng.uniform(0.0, 0.3)))
            except ValueError:
                return
            s["band_params"]["mu"] = float(B["mu"])
        elif op == "diff":
            mu = float(rng.uniform(-1.2, -0.4))
            B.diff_doping(mu, 0.1)
            s["band_params"]["mu"] = mu
        for m in names:
            ck.eq("reading %s after %s" % (m, op), float(B[m]), float(s["band_params"][m]))
            ck.eq("get_band_param %s" % m, float(B.get_band_param(m)), float(s["band_params"][m]))
        current(ck, B, s, cls, "after " + " ".join(ops))


@case("C02", 12, 60)
def changes_erase(rng, ck):
    """each kind of change, right after a complete run, leaves nothing of the previous surface"""
    cls = small(15)
    for ms in (True, False):
        for op in ("item", "method", "replace", "scale", "diff", "sign", "signs", "slight", "slight replace", "slight scale"):
            s = spec(rng, ["cuprate", "warped"])
            s["resolution"] = [9, 9, 3]
            B = make(s, cls)
            B.march_square, B.res_xy_rough = ms, 31
            ck.inp(spec=s, op=op, march_square=ms)
            B.runBandStructure()
            B.dos_epsilon_func()
            if ms:
                B.mass_func()
            if op == "item":
                s["band_params"]["t"] = B["t"] = 1.07
            elif op == "method":
                B.set_band_param("mu", s["band_params"]["mu"] * 1.05)
                s["band_params"]["mu"] *= 1.05
            elif op == "replace":
                s["band_params"] = {k: v * 1.03 for k, v in s["band_params"].items()}
                B.band_params = s["band_params"]
            elif op == "sign":
                s["band_params"]["tz"] = B["tz"] = -s["band_params"]["tz"]
            elif op == "signs":
                s["band_params"] = dict(s["band_params"], tz=-s["band_params"]["tz"])
                B.band_params = s["band_params"]
            elif op == "slight":
                s["band_params"]["t"] = B["t"] = s["band_params"]["t"] * (1 + 1e-6)
            elif op == "slight replace":
                s["band_params"] = {k: v * (1 - 1e-6) if k == "mu" else v for k, v in s["band_params"].items()}
                B.band_params = s["band_params"]
            elif op == "slight scale":
                s["energy_scale"] = B.energy_scale = s["energy_scale"] * (1 + 1e-6)
            elif op == "scale":
                s["energy_scale"] = B.energy_scale = s["energy_scale"] * 1.7
            else:
                B.diff_doping(s["band_params"]["mu"] * 1.04, 0.2)
                s["band_params"]["mu"] *= 1.04
            s["band_params"] = dict(s["band_params"])
            current(ck, B, s, cls, "after %s" % op)


@case("C02", 3, 20)
def own_copy(rng, ck):
    s = spec(rng, ["cuprate", "warped"])
    d = dict(s["band_params"])
    B1, B2 = make(s, band_params=d), make(s, band_params=d)
    from cuprates_transport.bandstructure import BandStructure
    B1, B2 = (BandStructure(s["a"], s["b"], s["c"], s["energy_scale"], d, s["band_model"]) for _ in range(2))
    d["mu"] = 5.0
    for B in (B1, B2):
        ck.eq("caller's change does not reach the band", B["mu"], s["band_params"]["mu"])
    B1["t"] = 3.0
    ck.eq("other band untouched", B2["t"], s["band_params"]["t"])
    e = {k: 2 * v for k, v in s["band_params"].items()}
    B1.band_params = e
    B2.band_params = e
    e["t"] = -9.0
    B1["mu"] = 4.0
    ck.eq("replaced set is a copy", B1["t"], 2 * s["band_params"]["t"])
    ck.eq("other band's set is its own", B2["mu"], 2 * s["band_params"]["mu"])
    ck.eq("caller's dictionary untouched", e["mu"], 2 * s["band_params"]["mu"])
    D1, D2 = BandStructure(3.7, 3.7, 13, 100), BandStructure(3.7, 3.7, 13, 100)
    D1["mu"] = -0.5
    D1["tz"] = 0
    ck.eq("default set is not shared", D2["mu"], -0.83)
    ck.eq("default set is not shared", BandStructure(3.7, 3.7, 13, 100)["tz"], 0.07)
    ck.eq("zero reads back", D1["tz"], 0)


# ---------------------------------------------------------------- C03
@case("C03", 40, 400)
def triangulated(rng, ck):
    from skimage import measure
    s = scales(rng, spec(rng, ["cuprate", "warped", "closed", "plane", "skew", "free"]))
    s["resolution"] = [int(rng.integers(8, 22)), int(rng.integers(8, 22)), int(rng.integers(4, 10))]
    if rng.random() < 0.2:                       # a large surface: thousands of vertices
        s["resolution"] = [int(rng.integers(55, 90)), int(rng.integers(55, 90)), int(rng.integers(19, 28))]
    if rng.random() < 0.3 and s["kind"] != "free":
        s["k_max"] = [pi * rng.uniform(0.8, 1.5), pi * rng.uniform(0.8, 1.5), 2 * pi * rng.uniform(0.5, 1)]
    eps = float(rng.choice([0.0, rng.uniform(-0.05, 0.05) * s["energy_scale"]]))
    ck.inp(spec=s, epsilon=eps)
    r = ref(s)
    res = [n if n % 2 else n + 1 for n in s["resolution"]]
    E, ax = r.grid(res)
    if not E.min() < eps < E.max():
        return
    st = [x[1] - x[0] for x in ax]
    V, F, _, _ = measure.marching_cubes(E, level=eps, spacing=tuple(st), method="lewiner")
    V = V.astype(float) + np.array([x[0] for x in ax])
    tri = V[F]
    area = np.linalg.norm(np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0]), axis=1) / 2
    W = np.zeros(len(V))
    for q in range(3):
        np.add.at(W, F[:, q], area / 3)
    B = make(s)
    kf, dkf = B.marching_cube(eps) if rng.random() < 0.3 else (B.discretize_fermi_surface(epsilon=eps), None) and (B.kf, B.dkf)
    ck.eq("shape of the Fermi wavevectors", tuple(np.shape(kf)), (3, len(V)))
    ck.close("weights add up to the triangulated area", np.sum(dkf), area.sum(), 2e-5)
    ck.true("weights are never negative", (np.asarray(dkf) >= 0).all(), np.min(dkf))
    L = max(abs(x[0]) for x in ax)
    ck.same_rows("vertices and weights", np.column_stack([np.transpose(kf), dkf]), np.column_stack([V, W]), [3e-6 * L] * 3 + [3e-5 * max(W.max(), 1e-12)])
    # the energy at a vertex is the level, within the interpolation error of one grid cell
    e = r.E(*np.asarray(kf, float))
    D = [np.abs(np.diff(E, axis=q)).max() for q in range(3)]
    ck.true("at the requested energy level", (np.abs(e - eps) <= max(D) + 1e-9).all(), np.abs(e - eps).max())


# ---------------------------------------------------------------- C04
def slices(s, r, R, eps):
    """contours of every slice in reciprocal coordinates, from the statement"""
    from skimage import measure
    square = s["a"] == s["b"]
    nz = s["resolution"][2] | 1
    kz = np.linspace(-r.k_max[2] / r.c, r.k_max[2] / r.c, nz)
    n = R if square else 2 * R
    lo = 0 if square else -1
    gx, gy = (np.linspace(lo * km / l, km / l, n) for km, l in ((r.k_max[0], r.a), (r.k_max[1], r.b)))
    X, Y = np.meshgrid(gx, gy, indexing="ij")
    out = []
    for z in kz:
        cs = []
        for c in measure.find_contours(r.E(X, Y, z), eps):
            x = gx[0] + c[:, 0] * (gx[1] - gx[0])
            y = gy[0] + c[:, 1] * (gy[1] - gy[0])
            cs.append((x, y))
        out.append(cs)
    return kz, out, square


def sliced_check(ck, B, kf, dkf, kz, cs, square, scale):
    dkz = kz[1] - kz[0]
    start = 0
    want, group = [], []
    for z, contours in zip(kz, cs):
        sel = np.abs(kf[2] - z) < 1e-9 + abs(dkz) * 1e-6
        P = kf[:2, sel].T
        w = np.asarray(dkf)[sel]
        rows = []
        for x, y in contours:
            S = np.concatenate([[0], np.cumsum(np.hypot(np.diff(x), np.diff(y)))])
            L = S[-1]
            if not len(P):
                raise Fail("slice kz=%g has a contour but no points" % z)
            d = np.hypot(P[:, 0] - x[0], P[:, 1] - y[0])
            k = int(np.argmin(d))
            if d[k] > 1e-6 * scale:
                raise Fail("slice kz=%g: no point at the start of a contour" % z)
            near = np.nonzero(d < 2e-6 * scale)[0]
            ns = {int(round(L * dkz / w[q])) for q in near if w[q] > 0}
            ok = [n for n in ns if n >= 3 and any(abs(L * dkz / n - w[q]) < 1e-6 * w[q] for q in near)]
            if not ok:
                raise Fail("slice kz=%g: weight %r of the contour of length %r is not its spacing times the slice spacing with at least three points" % (z, float(w[k]), float(L)))
            n = ok[0]
            t = np.arange(n) * L / n
            px, py = np.interp(t, S, x), np.interp(t, S, y)
            for X, Y in ([(px, py), (-py, px), (-px, -py), (py, -px)] if square else [(px, py)]):
                rows.append(np.column_stack([X, Y, np.full(n, z), np.full(n, L / n * dkz), np.full(n, L / n), np.full(n, dkz)]))
        rows = np.concatenate(rows) if rows else np.empty((0, 6))
        want.append(rows)
        group.append(len(rows))
    W = np.concatenate(want)
    got = np.column_stack([kf.T, dkf, B.dks, B.dkz])
    ck.same_rows("points, weights and spacings", got, W, [2e-6 * scale] * 2 + [1e-9 + 1e-6 * abs(kz).max()] + [1e-6 * x for x in W[:, 3:].max(axis=0)])
    ck.eq("per-slice counts", [int(x) for x in B.number_of_points_per_kz_list], group)


@case("C04", 48, 480)
def sliced(rng, ck):
    s = spec(rng, ["cuprate", "warped", "closed", "ends", "plane", "skew"])
    if s["kind"] == "skew" and s["a"] == s["b"]:
        s["b"] *= 1.21
    s["resolution"] = [int(rng.integers(4, 22)), int(rng.integers(4, 22)), int(rng.integers(3, 12))]
    eps = float(rng.choice([0.0, rng.uniform(-0.05, 0.05) * s["energy_scale"]]))
    R = int(rng.integers(24, 70))
    if rng.random() < 0.3:
        u = rng.uniform(0.9, 1.3)
        s["k_max"] = [pi * u, pi * (u if s["a"] == s["b"] else rng.uniform(0.9, 1.3)), 2 * pi * rng.uniform(0.5, 1)]
    B = make(s)
    B.res_xy_rough = R
    B.march_square = True
    ck.inp(spec=s, epsilon=eps, res_xy_rough=R)
    r = ref(s)
    kz, cs, square = slices(s, r, R, eps)
    if not any(cs):
        return
    for again in range(2):
        B.discretize_fermi_surface(epsilon=eps)
        sliced_check(ck, B, np.asarray(B.kf), np.asarray(B.dkf), kz, cs, square, max(abs(r.k_max[0] / r.a), abs(r.k_max[1] / r.b)))
        nz = s["resolution"][2] | 1
        ck.eq("one count per slice", len(B.number_of_points_per_kz_list), nz)


# ---------------------------------------------------------------- C05
@case("C05", 32, 320)
def surface_quantities(rng, ck):
    s = spec(rng, ["cuprate", "warped", "plane", "skew", "closed", "ends"])
    s["resolution"] = [int(rng.integers(6, 16)), int(rng.integers(6, 16)), int(rng.integers(3, 9))]
    B = make(s)
    B.march_square = bool(rng.random() < 0.7) or s["kind"] in ("closed", "ends")
    B.res_xy_rough = 41
    ck.inp(spec=s, march_square=B.march_square)
    eps = float(rng.choice([0.0, rng.uniform(-0.03, 0.03) * s["energy_scale"]]))
    for again in range(2):
        r = ref(s)
        B.discretize_fermi_surface(epsilon=eps)
        v = np.array(r.v(*B.kf))
        ck.close("velocity at every Fermi wavevector", B.vf, v, 1e-7, 1e-9)
        sp = np.sqrt((v ** 2).sum(axis=0))
        ck.close("local density of states", B.dos_k, 1 / (hbar * sp), 1e-6)
        B.dos_epsilon_func()
        ck.close("total density of states", B.dos_epsilon, 2 / (2 * pi) ** 3 * np.sum(np.asarray(B.dkf) * 1e20 / (hbar * sp)), 1e-6)
        if B.march_square:
            B.mass_func()
            nz = s["resolution"][2] | 1
            ck.close("cyclotron mass", B.mass, hbar / (2 * pi) * np.sum(np.asarray(B.dks) * 1e10 / np.hypot(v[0], v[1])) / nz / electron_mass, 1e-6)
        s["band_params"]["mu"] = B["mu"] = float(s["band_params"]["mu"] * 1.03)


# ---------------------------------------------------------------- C06
@case("C06", 40, 400)
def filling(rng, ck):
    s = scales(rng, spec(rng, nbz=int(rng.choice([1, 2, 3, 4]))))
    res = [int(rng.integers(4, 24)), int(rng.integers(4, 24)), int(rng.integers(3, 12))]
    B = make(s)
    r = ref(s)
    ck.inp(spec=s, res=res)
    E, _ = r.grid(res)
    if np.abs(E).min() < 1e-9 * s["energy_scale"]:
        return
    n = 2 / s["number_of_bz"] * np.mean(E <= 0)
    ck.close("doping returned", B.doping(*res), 1 - n, 1e-12)
    ck.close("filling", B.n, n, 1e-12)
    ck.close("doping is one minus filling", B.p, 1 - n, 1e-12)
    far = s["band_params"]["mu"] + float(rng.choice([-0.7, 0.7]))
    B["mu"] = far
    Ef, _ = ref(s, band_params=dict(s["band_params"], mu=far)).grid(res)
    if np.abs(Ef).min() > 1e-9 * s["energy_scale"]:
        ck.close("filling returned", B.update_filling(*res), 2 / s["number_of_bz"] * np.mean(Ef <= 0), 1e-12)
        ck.close("filling", B.n, 2 / s["number_of_bz"] * np.mean(Ef <= 0), 1e-12)
    B["mu"] = s["band_params"]["mu"]
    ck.close("filling returned", B.filling(*res), n, 1e-12)
    other = [int(rng.integers(4, 24)), int(rng.integers(4, 24)), int(rng.integers(3, 12))]
    Eo, _ = r.grid(other)
    if np.abs(Eo).min() > 1e-9 * s["energy_scale"]:
        ck.close("filling returned on another grid", B.filling(*other), 2 / s["number_of_bz"] * np.mean(Eo <= 0), 1e-12)
    ck.close("filling returned", B.filling(*res), n, 1e-12)
    ck.close("doping is one minus filling", B.p, 1 - n, 1e-12)
    nz, pz = B.doping_per_kz(*res)
    ck.close("plane-resolved filling", nz, 2 / s["number_of_bz"] * np.mean(E <= 0, axis=(0, 1)), 1e-12)
    ck.close("plane-resolved doping", pz, 1 - np.asarray(nz), 1e-12)
    ck.close("planes average to the filling of the same grid", np.mean(nz), n, 1e-12)
    ck.true("bounds", 0 <= B.n <= 2 / s["number_of_bz"], B.n)
    for mu in (-40.0, 40.0):
        B["mu"] = mu
        B.doping(*res)
        ck.close("empty or full band", B.n, 0.0 if mu < 0 else 2 / s["number_of_bz"], 1e-12)
    E0 = dict(band_model="-mu + t*cos(a*kx)", band_params={"mu": 0.0, "t": 0.0})
    Z = make(dict(s, **E0))
    ck.close("states at zero energy are occupied", Z.doping(*res), 1 - 2 / s["number_of_bz"], 1e-12)
    # the edges of the grid lie just above or just below zero, however large the energies elsewhere
    just = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-14, -6))
    Z = make(dict(s, band_model="-mu + t*(1 + cos(a*kx))", band_params={"mu": just, "t": 1.0}, k_max=[pi, pi, pi]))
    ck.inp(just=just)
    ck.close("energies are compared with zero", Z.update_filling(*res), (2 / s["number_of_bz"]) * (2 / res[0] if just > 0 else 0.0), 1e-12)
    ck.inp(spec=s)
    B["mu"] = s["band_params"]["mu"]
    rn = B.resolution
    try:
        B.runBandStructure()
    except Exception:
        return
    E, _ = r.grid([10 * x for x in rn])
    if np.abs(E).min() > 1e-9 * s["energy_scale"]:
        ck.close("a run counts on ten times its resolution", B.n, 2 / s["number_of_bz"] * np.mean(E <= 0), 1e-12)


class Solver:
    """the root finder of scipy, recording what it was asked and found, with further trial evaluations before it returns"""

    def __init__(self, rng, M):
        from scipy import optimize
        self.M, self.opt, self.more = M, optimize, [float(x) for x in rng.uniform(-9, 9, int(rng.integers(0, 3)))]
        self.found = []

    def __enter__(self):
        self.kept = [(m, self.opt.brentq) for m in (self.opt, self.M) if hasattr(m, "brentq")]
        real = self.opt.brentq

        def brentq(f, a, b, args=(), **kw):
            x = real(f, a, b, args=args, **kw)
            for t in self.more:
                f(t, *args)
            self.found.append(float(x[0] if isinstance(x, tuple) else x))
            return x
        for m, _ in self.kept:
            m.brentq = brentq
        return self

    def __exit__(self, *a):
        for m, f in self.kept:
            m.brentq = f


def wide(rng, s):
    """a band twice as wide, so that the chemical potential of many dopings lies beyond 5"""
    if rng.random() < 0.7:
        s["band_params"] = {k: 2.0 * v for k, v in s["band_params"].items()}
    return s


@case(("C06", "C07"), 32, 240)
def several_bands(rng, ck):
    import cuprates_transport.bandstructure as M
    cls = small(13)
    nb = int(rng.integers(1, 4))
    ss = [wide(rng, spec(rng, ["cuprate", "warped", "plane"], nbz=nb)) for _ in range(nb)]
    bs = [make(s, cls, band_name="b%d" % i) for i, s in enumerate(ss)]
    ck.inp(specs=ss)
    ns = []
    for s in ss:
        E, _ = ref(s).grid([13, 13, 13])
        ns.append(2 / nb * np.mean(E <= 0))
    for pr in (False, True):
        ck.close("doping of several bands", M.doping(bs, printDoping=pr), 1 - sum(ns), 1e-11)
    for b, n in zip(bs, ns):
        ck.close("filling of each band", b.n, n, 1e-12)
    target = float(rng.uniform(-0.2, 0.3) if rng.random() < 0.5 else rng.uniform(-0.9, 0.9))
    tol = float(rng.choice([0.1, 0.01, 0.001, 0.001, 0.0001]))
    so = Solver(rng, M)
    ck.inp(target=target, tol=tol, further_trials=so.more)
    others = [{k: v for k, v in s["band_params"].items() if k != "mu"} for s in ss]
    with so:
        M.set_mu_to_doping(bs, target, ptol=tol)
    mu = float(bs[0]["mu"])
    if len(so.found) == 1:
        ck.eq("chemical potential is the one found", mu, so.found[0])
    for b, o in zip(bs, others):
        ck.eq("every band at the same chemical potential", float(b["mu"]), mu)
        ck.eq("no other parameter changes", {k: v for k, v in b.band_params.items() if k != "mu"}, o)

    def f(m):
        return 1 - sum(2 / nb * np.mean(ref(s, band_params=dict(s["band_params"], mu=m)).grid([13, 13, 13])[0] <= 0) for s in ss) - target
    ck.true("within the tolerance of a zero", f(mu - 1.01 * tol - 1e-9) * f(mu + 1.01 * tol + 1e-9) <= 0, "mu %r" % mu)
    ck.true("between -10 and 10", -10 <= mu <= 10, mu)


# ---------------------------------------------------------------- C07
@case("C07", 40, 300)
def target_doping(rng, ck):
    cls = small(13)
    import cuprates_transport.bandstructure as M
    s = wide(rng, spec(rng, ["cuprate", "warped", "plane"]))
    B = make(s, cls)
    target = float(rng.uniform(-0.2, 0.4)) if s["number_of_bz"] == 1 else float(rng.uniform(0.2, 0.8))
    if rng.random() < 0.4:
        target = float(rng.uniform(1 - 1.9 / s["number_of_bz"], 0.95))
    tol = float(rng.choice([0.3, 0.03, 0.001]))
    so = Solver(rng, M)
    ck.inp(spec=s, target=target, tol=tol, further_trials=so.more)
    if rng.random() < 0.5:
        B.runBandStructure()
    with so:
        B.set_mu_to_doping(target, ptol=tol) if rng.random() < 0.8 else B.set_mu_to_doping(target)
    mu = float(B["mu"])
    if len(so.found) == 1:
        ck.eq("chemical potential is the one found", mu, so.found[0])
    ck.eq("no other parameter changes", {k: v for k, v in B.band_params.items() if k != "mu"}, {k: v for k, v in s["band_params"].items() if k != "mu"})

    def f(m):
        return 1 - 2 / s["number_of_bz"] * np.mean(ref(s, band_params=dict(s["band_params"], mu=m)).grid([13, 13, 13])[0] <= 0) - target
    ck.true("within the tolerance of a zero", f(mu - 1.01 * tol - 1e-9) * f(mu + 1.01 * tol + 1e-9) <= 0, "mu %r" % mu)
    d = float(rng.uniform(-1, 0))
    ck.close("doping difference at a trial value", B.diff_doping(d, target), f(d), 1e-9, 1e-12)
