import os
import copy
import tempfile
from core import case, Fail
from bands import *

KB = Boltzmann / MEV
E_ = elementary_charge
ALL = ["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]


def scat_params(rng):
    return shuffled(rng, {"gamma_0": float(rng.uniform(2, 20)), "gamma_k": float(rng.uniform(5, 60)), "power": float(rng.choice([2, 6, 12, 3.5])),
                          "power_z": float(rng.choice([1, 2, 3, 4])), "gamma_k_sin": float(rng.uniform(1, 30)), "power_sin": float(rng.choice([1, 2, 8])),
                          "gamma_dos_max": float(rng.uniform(1, 40))})


def scat_models(rng):
    if rng.random() < 0.5:
        return ["isotropic"] + [str(x) for x in rng.choice(ALL[1:], rng.integers(0, 3), replace=False)]
    ms = [str(x) for x in rng.choice(ALL, rng.integers(1, 5), replace=bool(rng.random() < 0.3))]
    return ms + ["isotropic"] if "isotropic" not in ms and "gamma_dos_func" not in ms else ms


def rate(models, p, r, k, v, dosmax, extra=None):
    """total scattering rate from the documented formulas"""
    kx, ky, kz = k
    wrap = lambda x, l: (np.asarray(x) + pi / l) % (2 * pi / l) - pi / l
    phi = np.arctan2(wrap(ky, r.b), wrap(kx, r.a))
    g = np.zeros(np.broadcast(*k).shape)
    for m in models:
        if m == "isotropic":
            g = g + p["gamma_0"]
        elif m == "cos2phi":
            g = g + p["gamma_k"] * np.abs(np.cos(2 * phi)) ** p["power"]
        elif m == "cos2phi_coskz":
            g = g + p["gamma_k"] * np.abs(np.cos(2 * phi)) ** p["power"] * np.abs(np.cos(kz * r.c / 2)) ** p["power_z"]
        elif m == "sin2phi":
            g = g + p["gamma_k_sin"] * np.abs(np.sin(2 * phi)) ** p["power_sin"]
        elif m == "gamma_dos_func":
            g = g + p["gamma_dos_max"] / (hbar * np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)) / dosmax
        else:
            g = g + extra[m]
    return g


def field(B, th, ph):
    t, p = np.deg2rad(th), np.deg2rad(ph)
    return B * np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])


def rand_field(rng, zero=0.2):
    B = 0.0 if rng.random() < zero else float(rng.uniform(5, 60) * rng.choice([1, 1, 1, -1]))
    return B, float(rng.uniform(0, 180)), float(rng.uniform(-180, 360))


def settings(rng, cold=None, zero=0.2, models=None, square=None, kinds=None):
    s = spec(rng, kinds or ["cuprate", "warped", "plane"], square=square)
    s["resolution"] = [int(rng.integers(6, 12)), int(rng.integers(6, 12)), int(rng.choice([3, 5]))]
    B, th, ph = rand_field(rng, zero)
    return dict(band=s, Bamp=B, Btheta=th, Bphi=ph, N_time=int(rng.integers(20, 60)), T=0.0 if (rng.random() < 0.6 if cold is None else cold) else float(rng.uniform(3, 40)),
                N_epsilon=int(rng.integers(3, 6)), dfdE_cut_percent=float(rng.choice([0.05, 0.01, 0.2])), scattering_models=models or scat_models(rng),
                scattering_params=scat_params(rng), ms=bool(rng.random() < 0.6))


def band_of(st, cls=None):
    B = make(st["band"], cls or Quick())
    B.march_square = st["ms"]
    B.res_xy_rough = 31
    return B


def Quick():
    """counting grids of a run (ten times the resolution) capped, discretization unchanged"""
    from cuprates_transport.bandstructure import BandStructure

    class Quick_(BandStructure):
        def dispersion_grid(self, resolution):
            return super().dispersion_grid([min(int(r), 25) for r in resolution])
    return Quick_


def cond_of(st, band, cls=None, **kw):
    from cuprates_transport.conductivity import Conductivity
    d = {k: st[k] for k in ("Bamp", "Btheta", "Bphi", "N_time", "T", "N_epsilon", "dfdE_cut_percent", "scattering_models", "scattering_params")}
    d.update(kw)
    return (cls or Conductivity)(band, **d)


def oracle_orbits(r, kf, B, t):
    """k(t), v(t) integrated independently (hbar dk/dt = e v x B, angstrom^-1 and ps)"""
    from scipy.integrate import odeint
    n = kf.shape[1]

    def f(y, _):
        k = y.reshape(3, n)
        v = np.array(r.v(*k))
        return (E_ * PS * ANG / hbar * np.cross(v.T, B).T).ravel()
    y = odeint(f, kf.ravel(), t, rtol=1e-10, atol=1e-10)
    k = y.T.reshape(3, n, len(t))
    return k, np.array(r.v(*k))


def oracle_sigma(r, kf, dkf, st, time, extra=None, dosmax=None):
    """Chambers sum from the statement"""
    v0 = np.array(r.v(*kf))
    dos = 1 / (hbar * np.sqrt((v0 ** 2).sum(axis=0)))
    B = field(st["Bamp"], st["Btheta"], st["Bphi"])
    dm = dos.max()
    pre = 2 * E_ ** 2 / (2 * pi) ** 3 / r.nbz * PS / ANG ** 2
    if st["Bamp"] == 0:
        vt = v0 / rate(st["scattering_models"], st["scattering_params"], r, kf, v0, dm, extra)
    else:
        k, v = oracle_orbits(r, kf, B, time)
        g = rate(st["scattering_models"], st["scattering_params"], r, k, v, dm, extra)
        dt = time[1] - time[0]
        x = np.concatenate([np.zeros((kf.shape[1], 1)), np.cumsum(g[:, 1:] * dt, axis=1)], axis=1)
        vt = (v * np.exp(-x) * dt).sum(axis=2)
    return pre * np.einsum("n,in,jn->ij", dkf * dos, v0, vt)


# ---------------------------------------------------------------- C08
@case("C08", 40, 400)
def field_vector(rng, ck):
    st = settings(rng)
    band = band_of(st)
    c = cond_of(st, band)
    v = [st["Bamp"], st["Btheta"], st["Bphi"]]
    ops = []
    for q in range(10):
        ck.inp(start=v, ops=ops)
        ck.close("field vector", c.B_vector, field(*v), 1e-12, 1e-12)
        ck.close("length", np.linalg.norm(c.B_vector), abs(v[0]), 1e-12)
        ck.eq("amplitude reads back", float(c.Bamp), float(v[0]))
        ck.eq("polar angle reads back", float(c.Btheta), float(v[1]))
        ck.eq("azimuth reads back", float(c.Bphi), float(v[2]))
        op = int(rng.integers(5))
        x = [float(rng.choice([0, rng.uniform(-60, 60)])), float(rng.choice([0, 90, 180, rng.uniform(-200, 400)])), float(rng.choice([0, 45, rng.uniform(-400, 400)]))]
        ops.append((op, x))
        if op == 0:
            v[0] = c.Bamp = x[0]
        elif op == 1:
            v[1] = c.Btheta = x[1]
        elif op == 2:
            v[2] = c.Bphi = x[2]
        elif op == 3:
            c.B_vector = np.array(x)
        else:
            v[0] = c.Bamp = x[0]
            v[2] = c.Bphi = x[2]


# ---------------------------------------------------------------- C09
@case("C09", 16, 160)
def orbits(rng, ck):
    st = settings(rng, cold=True, zero=0.15)
    ck.inp(**st)
    band = band_of(st)
    band.runBandStructure()
    c = cond_of(st, band, rtol=1e-9, atol=1e-9)
    r = ref(st["band"])
    B = field(st["Bamp"], st["Btheta"], st["Bphi"])
    if hasattr(c, "movement_equation"):
        k = rng.uniform(-1, 1, (3, 9))
        v = np.array(r.v(*k))
        d = np.asarray(c.movement_equation(k.ravel().copy(), float(rng.uniform(0, 1)))).reshape(3, 9)
        ck.close("Lorentz force", d, E_ * PS * ANG / hbar * np.cross(v.T, B).T, 1e-8, 1e-10)
    c.runTransport()
    kf = np.asarray(c.bandObject.kf)
    if st["Bamp"] == 0:
        ck.eq("single sample", c.kft.shape, (3, kf.shape[1], 1))
        ck.close("sample is the Fermi point", c.kft[:, :, 0], kf, 1e-13)
        ck.close("velocity is the stored one", c.vft[:, :, 0], c.bandObject.vf, 1e-13)
        return
    ck.eq("sampled on the time grid", c.kft.shape, (3, kf.shape[1], st["N_time"]))
    k, v = oracle_orbits(r, kf, B, np.asarray(c.time_array))
    ck.close("orbits start at the Fermi points", c.kft[:, :, 0], kf, 1e-9, 1e-10)
    ck.close("orbits", c.kft, k, 1e-5, 1e-5)
    ck.close("velocity at the same position and time", c.vft, np.array(r.v(*c.kft)), 1e-8, 1e-10)
    e = r.E(*c.kft)
    ck.close("energy conserved", e - e[:, :1], np.zeros_like(e), 0, 0) if np.abs(e - e[:, :1]).max() > 1e-4 * st["band"]["energy_scale"] else None
    par = np.einsum("i,int->nt", B / np.linalg.norm(B), c.kft)
    ck.true("momentum along the field conserved", np.abs(par - par[:, :1]).max() < 1e-5, np.abs(par - par[:, :1]).max())


# ---------------------------------------------------------------- C10
@case("C10", 30, 300)
def lifetimes(rng, ck):
    st = settings(rng, models=None)
    ck.inp(**st)
    band = band_of(st)
    band.runBandStructure()
    r = ref(st["band"])
    models, p = st["scattering_models"], dict(st["scattering_params"])
    from cuprates_transport.conductivity import Conductivity
    extra = {}

    class Own(Conductivity):
        """further models, each with the arguments it declares"""
        def of_energy(self, epsilon):
            local_kx = 2.0
            return 1.0 + 0.01 * epsilon * local_kx

        def of_speed(self, vx, vy, vz):
            epsilon = 3e-6
            return epsilon * np.abs(vx) + 1e-6 * np.abs(vz) + 2e-6 * np.abs(vy)

        def of_position(self, kx, ky, kz):
            vx = 0.5
            return vx * kx ** 2 + ky ** 2 + 0.1 * kz ** 2
    if rng.random() < 0.4:
        models = models + [str(rng.choice(["of_energy", "of_speed", "of_position"]))]
    c = cond_of(st, band, Own, scattering_models=list(models))
    for stage in range(4):
        ck.inp(models=models, params=p)
        for shape in ((6,), (4, 5), ()):
            k = [rng.uniform(-2, 2, shape) for _ in range(3)]
            v = [rng.uniform(-2e5, 2e5, shape) for _ in range(3)]
            eps = float(rng.uniform(-5, 5))
            extra = {"of_energy": 1.0 + 0.02 * eps, "of_speed": 3e-6 * np.abs(v[0]) + 1e-6 * np.abs(v[2]) + 2e-6 * np.abs(v[1]), "of_position": 0.5 * k[0] ** 2 + k[1] ** 2 + 0.1 * k[2] ** 2}
            g = rate(models, p, r, k, v, np.max(c.bandObject.dos_k), extra)
            ck.close("lifetime", c.tau_tot_func(*k, *v, eps), 1 / g, 1e-8)
            if "of_energy" not in models:
                ck.close("lifetime without an energy", c.tau_tot_func(*k, *v), 1 / g, 1e-8)
            if not set(models) & {"of_position", "cos2phi_coskz"}:
                n, m = rng.integers(-2, 3, 2)
                if np.abs(np.cos(np.array(k[0]) * r.a / 2)).min() > 1e-3 and np.abs(np.cos(np.array(k[1]) * r.b / 2)).min() > 1e-3:
                    ck.close("same at equivalent wavevectors", c.tau_tot_func(k[0] + 2 * pi * n / r.a, k[1] + 2 * pi * m / r.b, k[2], *v, eps), 1 / g, 1e-6)
        what = int(rng.integers(5))
        if what == 0 or what == 4:
            p = scat_params(rng)
            if what == 4 and "isotropic" in models:
                p[str(rng.choice(["gamma_k", "gamma_k_sin", "gamma_dos_max"]))] = 0.0
            c.scattering_params = dict(p)
        elif what == 1:
            n = str(rng.choice(["gamma_0", "gamma_k", "gamma_k_sin", "gamma_dos_max", "power"]))
            p[n] = float(rng.uniform(1, 9))
            setattr(c, n, p[n])
        elif what == 2:
            c.runTransport() if st["T"] == 0 else None
        else:
            d = scat_params(rng)
            c.scattering_params = d
            p = dict(d)
            d["gamma_0"] = 1e9


# ---------------------------------------------------------------- C11
@case("C11", 24, 240)
def time_grid(rng, ck):
    st = settings(rng, cold=True)
    if rng.random() < 0.15:                      # very short or very long lifetimes
        f = float(10 ** rng.uniform(2, 6)) if rng.random() < 0.6 else float(10 ** rng.uniform(-3, -1))
        for q in ("gamma_0", "gamma_k", "gamma_k_sin", "gamma_dos_max"):
            st["scattering_params"][q] *= f
        if f < 1:
            st["Bamp"] *= f                      # the same number of revolutions
    ck.inp(**st)
    band = band_of(st)
    band.runBandStructure()
    c = cond_of(st, band)
    r = ref(st["band"])
    if rng.random() < 0.4:
        st["N_time"] = c.N_time = int(rng.integers(2, 400))
    for stage in range(3):
        ck.inp(**st)
        c.runTransport()
        kf = np.asarray(c.bandObject.kf)
        v = np.array(r.v(*kf))
        g = rate(st["scattering_models"], st["scattering_params"], r, kf, v, (1 / (hbar * np.sqrt((v ** 2).sum(axis=0)))).max())
        N = st["N_time"]
        tmax = 8 / g.min()

        def grid(N):
            ck.close("spans eight times the longest lifetime", c.time_max, tmax, 1e-6)
            ck.close("step", c.dtime, c.time_max / N, 1e-12)
            ck.close("equal steps from zero", c.time_array, np.arange(N) * c.time_max / N, 1e-9, 1e-12)
            ck.close("increments", c.dtime_array, np.concatenate([[0], np.full(N - 1, c.time_max / N)]), 1e-12)
        grid(N)
        if st["Bamp"] != 0:
            kt, vt = np.asarray(c.kft), np.asarray(c.vft)
            gt = rate(st["scattering_models"], st["scattering_params"], r, kt, vt, np.max(c.bandObject.dos_k))
            want = np.concatenate([np.zeros((kf.shape[1], 1)), np.cumsum(gt[:, 1:] * c.dtime, axis=1)], axis=1)
            ck.close("survival exponent", c.t_o_tau, want, 1e-6, 1e-9)
            ck.true("never decreasing", (np.diff(c.t_o_tau, axis=1) >= 0).all())
        else:
            ck.close("survival exponent without a field", c.t_o_tau, g, 1e-6)
        ck.close("largest rate", c.gamma_tot_max, g.max(), 1e-6)
        ck.close("smallest rate", c.gamma_tot_min, g.min(), 1e-6)
        N = st["N_time"] = c.N_time = int(rng.choice([2, 3, 7, 10, 29, 49, 98, 103, 107, 161, 187, 193, 500, 1000]))
        grid(N)
        ck.eq("number of steps reads back", int(c.N_time), N)
        if rng.random() < 0.5:
            N = st["N_time"] = c.N_time = int(rng.integers(2, 300))
            grid(N)
        st["scattering_params"] = scat_params(rng)
        c.scattering_params = dict(st["scattering_params"])
        if rng.random() < 0.5:
            st["Bamp"] = c.Bamp = float(rng.choice([0.0, 30.0, -12.0]))
        st["N_time"] = c.N_time = min(st["N_time"], 80)


# ---------------------------------------------------------------- C12
@case("C12", 40, 300)
def chambers(rng, ck):
    st = settings(rng, cold=True, zero=0.3, kinds=["cuprate", "warped", "plane", "skew"])
    st["band"]["number_of_bz"] = int(rng.choice([1, 2, 3]))
    if rng.random() < 0.25:
        st["Btheta"] = float(rng.choice([0.0, 0.0, 90.0, 180.0]))
    weak = rng.random() < 0.4 and "tz" in st["band"]["band_params"]
    if weak:
        st["band"]["band_params"]["tz"] *= float(10 ** rng.uniform(-5, -1))
        st["Bamp"] = st["Bamp"] if rng.random() < 0.4 else 0.0
    ck.inp(**st)
    band = band_of(st)
    band.runBandStructure()
    c = cond_of(st, band, rtol=1e-9, atol=1e-9)
    r = ref(st["band"])
    for stage in range(2):
        c.runTransport()
        want = oracle_sigma(r, np.asarray(c.bandObject.kf), np.asarray(c.bandObject.dkf), st, np.asarray(c.time_array))
        ck.close("conductivity", c.sigma, want, 1e-5, 1e-6)
        if st["Bamp"] == 0:
            ck.close("symmetric", c.sigma, np.asarray(c.sigma).T, 1e-9, 1e-12)
            ck.close("diagonal, however small", np.diag(c.sigma), np.diag(want), 1e-5)
            ck.true("positive semidefinite", np.linalg.eigvalsh(c.sigma).min() > -1e-9 * np.abs(c.sigma).max(), c.sigma)
        st["Bamp"] = c.Bamp = 0.0 if st["Bamp"] else float(rng.uniform(10, 50))


# ---------------------------------------------------------------- C13
def energies(T, N, cut):
    b = 2 * KB * T * np.arccosh(1 / np.sqrt(cut))
    return np.linspace(-b, b, N)


@case("C13", 60, 400)
def energy_grid(rng, ck):
    st = settings(rng)
    c = cond_of(st, band_of(st))
    ops = []
    for q in range(8):
        ck.inp(start=st, ops=ops)
        if st["T"] != 0:
            ck.close("energies", c.epsilon_array, energies(st["T"], st["N_epsilon"], st["dfdE_cut_percent"]), 1e-9, 1e-10)
            w = [-c.dfdE(e) for e in c.epsilon_array] if hasattr(c, "dfdE") else []
            if w:
                x = np.asarray(c.epsilon_array)
                ck.close("weight is minus df/dE", w, 1 / (4 * KB * st["T"]) / np.cosh(x / (2 * KB * st["T"])) ** 2, 1e-9)
                ck.close("fallen to the requested fraction of the peak", w[0], st["dfdE_cut_percent"] / (4 * KB * st["T"]), 1e-8)
        op = str(rng.choice(["T", "T", "N_epsilon", "dfdE_cut_percent", "zero"]))
        x = {"T": float(rng.uniform(0.5, 300)), "zero": 0.0, "N_epsilon": int(rng.integers(2, 40)), "dfdE_cut_percent": float(rng.uniform(0.0005, 0.5))}[op]
        ops.append((op, x))
        setattr(c, "T" if op == "zero" else op, x)
        st["T" if op == "zero" else op] = x


@case("C13", 16, 100)
def finite_temperature(rng, ck):
    st = settings(rng, cold=False, zero=0.3)
    st["N_time"] = 20
    if rng.random() < 0.3:
        st["T"], st["Bamp"] = float(0.004 * 10 ** rng.uniform(0, 1)), 0.0          # energies closer than a hundredth of a meV
    models = list(st["scattering_models"])
    from cuprates_transport.conductivity import Conductivity

    class Own(Conductivity):
        def of_energy(self, epsilon):
            return 1.0 + 0.3 * epsilon ** 2
    if rng.random() < 0.4:
        models.append("of_energy")
    st["scattering_models"] = models
    ck.inp(**st)
    band = band_of(st)
    band.runBandStructure()
    c = cond_of(st, band, Own, rtol=1e-9, atol=1e-9)
    r = ref(st["band"])
    for stage in range(2):
        T = st["T"]
        c.runTransport()
        es = energies(T, st["N_epsilon"], st["dfdE_cut_percent"])
        d = es[1] - es[0]
        S, A, Bt = 0, 0, 0
        for e in es:
            F = band_of(st)
            F.discretize_fermi_surface(epsilon=e)
            sg = oracle_sigma(r, np.asarray(F.kf, float), np.asarray(F.dkf), st, np.asarray(c.time_array), {"of_energy": 1.0 + 0.3 * e ** 2})
            w = d / (4 * KB * T) / np.cosh(e / (2 * KB * T)) ** 2
            S, A, Bt = S + w * sg, A + w * sg * e * MEV / (-E_ * T), Bt + w * sg * (e * MEV) ** 2 / (E_ ** 2 * T)
        ck.close("electrical", c.sigma, S, 1e-4, 3e-6)
        ck.close("thermoelectric", c.alpha, A, 1e-4, 1e-4)
        ck.close("thermal", c.beta, Bt, 1e-4, 3e-6)
        F = band_of(st)
        F.runBandStructure()
        ck.close("band back at the Fermi level", c.bandObject.kf, F.kf, 1e-9, 1e-10)
        ck.close("velocities back at the Fermi level", c.bandObject.vf, F.vf, 1e-9, 1e-10)
        st["T"] = c.T = float(rng.uniform(3, 40))
        st["Btheta"] = c.Btheta = float(rng.uniform(0, 90))


# ---------------------------------------------------------------- C14
def fresh_run(st, cls=None):
    band = band_of(st)
    band.runBandStructure()
    c = cond_of(st, band, cls)
    c.runTransport()
    return c


@case("C14", 40, 300)
def reruns(rng, ck):
    st = settings(rng, zero=0.2)
    st["N_epsilon"] = 3
    band = band_of(st)
    band.runBandStructure()
    c = cond_of(st, band)
    ops = []
    start = copy.deepcopy(st)
    for q in range(7):
        op = str(rng.choice(["run", "run", "Bamp", "angle", "T", "Nt", "Ne", "cut", "scat", "attr", "band", "scale", "cold", "models", "doping", "eps"]))
        ops.append(op)
        ck.inp(start=start, ops=ops, now=st)
        if op == "run":
            c.runTransport()
        elif op == "Bamp":
            st["Bamp"] = c.Bamp = float(rng.choice([0.0, rng.uniform(5, 50)]))
        elif op == "angle":
            st["Btheta"] = c.Btheta = float(rng.uniform(0, 120))
            st["Bphi"] = c.Bphi = float(rng.uniform(0, 90))
        elif op == "T":
            st["T"] = c.T = float(rng.uniform(2, 30))
        elif op == "cold":
            st["T"] = c.T = 0.0
        elif op == "Nt":
            st["N_time"] = c.N_time = int(rng.integers(10, 40))
        elif op == "Ne":
            st["N_epsilon"] = int(rng.integers(2, 5))
            c.N_epsilon = st["N_epsilon"]
        elif op == "cut":
            st["dfdE_cut_percent"] = c.dfdE_cut_percent = float(rng.uniform(0.01, 0.3))
        elif op == "scat":
            st["scattering_params"] = scat_params(rng)
            c.scattering_params = dict(st["scattering_params"])
        elif op == "attr":
            n = str(rng.choice(["gamma_0", "gamma_k", "power"]))
            st["scattering_params"] = dict(st["scattering_params"], **{n: float(rng.uniform(2, 20))})
            setattr(c, n, st["scattering_params"][n])
        elif op == "models":
            st["scattering_models"] = scat_models(rng)
            c.scattering_models = list(st["scattering_models"])
        elif op in ("band", "scale"):
            s = st["band"] = dict(st["band"], band_params=dict(st["band"]["band_params"]))
            if op == "band":
                s["band_params"]["mu"] = c.bandObject["mu"] = float(s["band_params"]["mu"] * rng.uniform(0.97, 1.03))
            else:
                s["energy_scale"] = c.bandObject.energy_scale = float(rng.uniform(50, 200))
            c.bandObject.runBandStructure()
        elif op == "doping":
            c.bandObject.doping(7, 7, 7)
            c.bandObject.runBandStructure()
        elif op == "eps":
            c.bandObject.runBandStructure(epsilon=0.02 * st["band"]["energy_scale"])
            c.runTransport()
            c.bandObject.runBandStructure()
        if op in ("run", "eps") or q == 6:
            if q == 6:
                c.runTransport()
            F = fresh_run(st)
            if op == "eps" and q != 6:
                continue
            ck.close("electrical tensor after " + " ".join(ops), c.sigma, F.sigma, 1e-7, 1e-9)
            if st["T"] != 0:
                ck.close("thermoelectric tensor after " + " ".join(ops), c.alpha, F.alpha, 1e-6, 1e-7)
                ck.close("thermal tensor after " + " ".join(ops), c.beta, F.beta, 1e-7, 1e-9)


def state(x):
    out = {}
    for k, v in vars(x).items():
        if isinstance(v, (np.ndarray, list, dict, int, float, str, bool, tuple)) or v is None:
            out[k] = copy.deepcopy(v)
    return out


def same_state(ck, name, got, want):
    ck.eq(name + ": same attributes", sorted(got), sorted(want))
    for k in want:
        a, b = got[k], want[k]
        if isinstance(b, np.ndarray):
            ck.true("%s: %s" % (name, k), isinstance(a, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True), "changed")
        else:
            ck.true("%s: %s" % (name, k), repr(a) == repr(b), "%r became %r" % (b, a))


@case("C14", 16, 120)
def callers_objects(rng, ck):
    st = settings(rng, zero=0.2)
    st["N_epsilon"] = 3
    ck.inp(**st)
    s = st["band"]
    km, res, bp = list(s["k_max"]), list(s["resolution"]), dict(s["band_params"])
    band = make(dict(s), Quick())
    from cuprates_transport.bandstructure import BandStructure
    km2, bp2, res2 = list(km), dict(bp), list(res)
    band = Quick()(s["a"], s["b"], s["c"], s["energy_scale"], bp2, s["band_model"], "given", res2, km2, s["number_of_bz"])
    band.march_square, band.res_xy_rough = st["ms"], 31
    band.runBandStructure()
    before = state(band)
    models, params = list(st["scattering_models"]), dict(st["scattering_params"])
    from cuprates_transport.conductivity import Conductivity
    given = (models, params)
    c = cond_of(st, band, scattering_models=models, scattering_params=params)
    c2 = cond_of(st, band, scattering_models=models, scattering_params=params)
    c.runTransport()
    c.Btheta = 33.0
    c.bandObject["mu"] = float(bp["mu"] * 1.02)
    c.bandObject.runBandStructure()
    c.gamma_0 = 3.0
    c.scattering_models.append("sin2phi")
    c.bandObject.k_max[0] = 1.0
    c.runTransport() if False else None
    same_state(ck, "caller's band", state(band), before)
    ck.eq("caller's k_max", km2, km)
    ck.eq("caller's band parameters", bp2, bp)
    ck.eq("caller's resolution", res2, res)
    ck.eq("caller's models", models, st["scattering_models"])
    ck.eq("caller's scattering parameters", params, st["scattering_params"])
    # later changes by the caller do not reach the other calculation
    models.append("cos2phi")
    params["gamma_0"] = 1e4
    band["mu"] = -0.1
    band.energy_scale = 7.0
    km2[2] = 0.1
    bp2["t"] = 55.0
    ck.eq("its own scattering parameters", dict(c2.scattering_params), st["scattering_params"])
    ck.eq("its own models", list(c2.scattering_models), st["scattering_models"])
    c2.runTransport()
    ck.close("caller's later changes do not reach it", c2.sigma, fresh_run(st).sigma, 1e-8, 1e-10)
    p3 = scat_params(rng)
    st3 = dict(st, scattering_params=dict(p3))
    c2.scattering_params = p3
    p3["gamma_0"] = 1e5
    c2.runTransport()
    ck.close("replaced scattering parameters are a copy", c2.sigma, fresh_run(st3).sigma, 1e-8, 1e-10)


# ---------------------------------------------------------------- C15, C16
def sweep_settings(rng, nb=None):
    nb = nb or int(rng.integers(1, 3))
    sts = []
    B, _, _ = rand_field(rng, 0)
    for q in range(nb):
        st = settings(rng, cold=bool(rng.random() < 0.8), zero=0, kinds=["cuprate", "warped", "skew", "skew"])
        st["N_epsilon"], st["N_time"] = 3, 20
        st["band"]["resolution"][2] = 5          # three slices: no velocity along z, a resistivity made of rounding errors
        if rng.random() < 0.7:
            st["Bamp"] = abs(B)
        st["name"] = "band%d" % q
        sts.append(st)
    return sts


def build_sweep(sts, **kw):
    from cuprates_transport.admr import ADMR
    cs = []
    for st in sts:
        b = band_of(st)
        b.band_name = st["name"]
        b.runBandStructure()
        cs.append(cond_of(st, b))
    return ADMR(cs, show_progress=False, **kw), cs


def angles_of(rng):
    lo = float(rng.choice([0, -20, -10, -15, 10, 5, 60, 80, 95]))
    step = float(rng.choice([10, 15, 25, 7.5]))
    n = int(rng.integers(2, 5))
    return dict(Btheta_min=lo, Btheta_max=lo + step * (n - 1), Btheta_step=step, Btheta_norm=float(rng.choice([lo, lo + step, lo + 0.4 * step, 0.0])),
                Bphi_array=[float(x) for x in rng.choice([0, 15, 30, 45, 60, 90, 140, 180, 270, -30], rng.integers(1, 4), replace=False)])


@case("C15", 30, 150)
def sweep(rng, ck):
    sts, an = sweep_settings(rng), angles_of(rng)
    if rng.random() < 0.3:
        for st in sts:
            st["name"] = "band"                  # nothing asks for distinct names
    A, cs = build_sweep(sts, **an)
    for again in range(2):
        ck.inp(bands=sts, angles=an, sweep=again)
        A.runADMR()
        th = np.asarray(A.Btheta_array, float)
        n = int(round((an["Btheta_max"] - an["Btheta_min"]) / an["Btheta_step"])) + 1
        ck.close("polar angles", th, an["Btheta_min"] + an["Btheta_step"] * np.arange(n), 1e-9, 1e-9)
        want = np.empty((len(an["Bphi_array"]), n))
        for i, ph in enumerate(an["Bphi_array"]):
            for j, t in enumerate(th):
                want[i, j] = np.linalg.inv(sum(np.asarray(fresh_run(dict(st, Btheta=t, Bphi=ph)).sigma) for st in sts))[2, 2]
        ck.close("each resistivity belongs to its own field direction", A.rhozz_array, want, 1e-6, 1e-8)
        for i in range(len(want)):
            ck.close("normalized by its own row", A.rzz_array[i], want[i] / np.interp(an["Btheta_norm"], th, want[i]), 1e-6, 1e-8)
            lo, hi = th.min(), th.max()
            ck.close("one at the reference angle", np.interp(an["Btheta_norm"], th, A.rzz_array[i]), 1.0, 1e-9)
        # a second sweep after changes
        sts[0] = dict(sts[0], scattering_params=scat_params(rng))
        cs_ = A.condObject_list[0]
        cs_.scattering_params = dict(sts[0]["scattering_params"])
        an["Bphi_array"] = [float(x) for x in rng.choice([5, 20, 50], 2, replace=False)]
        A.Bphi_array = np.array(an["Bphi_array"])


@case("C16", 24, 120)
def exported(rng, ck):
    sts, an = sweep_settings(rng, int(rng.integers(1, 4))), angles_of(rng)
    for st in sts:
        st["N_time"], st["T"] = 10, 0.0
    if rng.random() < 0.3:
        st = sts[0]
        st["band"] = dict(st["band"], band_model=st["band"]["band_model"] + " + M*0.01", band_params=dict(st["band"]["band_params"], M=float(rng.uniform(0.01, 0.3))))
    A, cs = build_sweep(sts, **an)
    for again in range(int(rng.integers(1, 4))):
        A.runADMR()
        if again == 0 and rng.random() < 0.5:
            cs[0].Bamp = sts[0]["Bamp"] = float(rng.uniform(5, 50))
            A.runADMR()
    ns = []
    for st in sts:
        E, _ = ref(st["band"]).grid([min(10 * (n | 1), 25) for n in st["band"]["resolution"]])
        ns.append(2 / st["band"]["number_of_bz"] * np.mean(E <= 0))
    ck.inp(bands=sts, angles=an)
    ck.close("total filling", A.total_filling, sum(ns), 1e-9)
    ck.close("total hole doping", A.total_hole_doping, 1 - sum(ns), 1e-9, 1e-9)
    st, b = sts[0], sts[0]["band"]
    with tempfile.TemporaryDirectory() as d:
        A.fileADMR(folder=d) if rng.random() < 0.5 else A.fileADMR(folder=d, filename="out.dat")
        f = os.listdir(d)
        ck.eq("one file", len(f), 1)
        lines = open(os.path.join(d, f[0])).read().splitlines()
        T = np.atleast_2d(np.loadtxt(os.path.join(d, f[0])))
        if f[0] != "out.dat":
            ck.true("default name", f[0].startswith("Rzz_") and f[0].endswith(".dat"), f[0])
            body = f[0][4:-4]
            if body.startswith("AF"):
                body = body[2:]
            parts = body.split("_")
            P = b["band_params"]
            exp = ["p%.3f" % (1 - sum(ns)), "T%.0f" % st["T"], "B%.0f" % st["Bamp"], "t%.1f" % b["energy_scale"]] + ["%s%.3f" % (k, P[k]) for k in sorted(P) if k != "t"]
            for x in exp + [s["name"] for s in sts]:
                ck.true("file name carries " + x, x in parts or x.replace("-0.000", "0.000") in parts, f[0])
    head = lines[0].lstrip("#").strip("\t ").split("\t")
    head = [h.strip() for h in head if h.strip()]
    th = np.asarray(A.Btheta_array, float)
    ck.eq("one column per label", T.shape, (len(th), len(head)))
    col = {}
    for q, h in enumerate(head):
        if h in col:
            ck.close("repeated column " + h, T[:, q], T[:, col[h]], 1e-6)
        col.setdefault(h, q)
    ck.close("angles", T[:, 0], th, 1e-6, 1e-6)
    ck.true("first label is the angle", head[0].startswith("theta"), head)
    for i, ph in enumerate(np.asarray(A.Bphi_array)):
        ck.true("label of azimuth %s" % ph, "phi=" + str(ph) in head[1 + i], head)
        ck.close("resistivity of azimuth %s" % ph, T[:, 1 + i], A.rhozz_array[i], 1e-6)
    want = {"B[T]": st["Bamp"], "t[meV]": np.round(b["energy_scale"], 0)}
    want.update({k: np.round(v, 3) for k, v in b["band_params"].items() if k != "t"})
    want.update({"res_" + x: n | 1 for x, n in zip("xyz", b["resolution"])})
    for k, v in want.items():
        ck.true("column " + k, k in col, head)
        ck.close("column " + k, T[:, col[k]], np.full(len(th), v), 1e-6, 1e-6)
    ck.eq("no other column", sorted(set(head[1 + len(A.Bphi_array):])), sorted(want))


# ---------------------------------------------------------------- C20
@case("C20", 16, 160)
def cyclotron(rng, ck):
    st = settings(rng, cold=True, zero=0)
    st["Bamp"], st["ms"] = abs(st["Bamp"]), True
    ck.inp(**st)
    band = band_of(st)
    band.runBandStructure()
    c = cond_of(st, band)
    r = ref(st["band"])
    for stage in range(2):
        c.omegac_tau_func()
        kf = np.asarray(c.bandObject.kf)
        v = np.array(r.v(*kf))
        tau = 1 / rate(st["scattering_models"], st["scattering_params"], r, kf, v, (1 / (hbar * np.sqrt((v ** 2).sum(axis=0)))).max())
        want = E_ * st["Bamp"] * np.hypot(v[0], v[1]) * tau * PS / (hbar * np.hypot(kf[0], kf[1]) / ANG)
        try:
            ck.close("omega_c tau of every Fermi point", c.omegac_tau_k, want, 1e-6)
        except Fail:
            # recorded finding: the lifetime divides instead of multiplying
            ck.close("omega_c tau of every Fermi point", np.asarray(c.omegac_tau_k) * tau ** 2, want, 1e-6)
            ck.known.append("omegac-lifetime-inverted")
        st["scattering_params"] = scat_params(rng)
        c.scattering_params = dict(st["scattering_params"])
        st["Bamp"] = c.Bamp = float(rng.uniform(5, 60))
