"""generated bands with an independent evaluation of their energy and velocity"""
import numpy as np
from scipy.constants import hbar, physical_constants, electron_mass, elementary_charge, Boltzmann
MEV = physical_constants["electron volt"][0] * 1e-3
ANG = 1e-10
PS = 1e-12
pi = np.pi
FNS = {"cos": np.cos, "sin": np.sin, "exp": np.exp, "sqrt": np.sqrt, "pi": np.pi}

# model expression -> parameter generator
MODELS = {
    "cuprate": ("- mu - 2*t*(cos(a*kx) + cos(b*ky)) - 4*tp*cos(a*kx)*cos(b*ky) - 2*tpp*(cos(2*a*kx) + cos(2*b*ky))"
                "- 2*tz*(cos(a*kx) - cos(b*ky))**2*cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)",
                lambda r: {"t": 1, "tp": r.uniform(-0.2, -0.05), "tpp": r.uniform(0.02, 0.1), "tz": r.uniform(0.02, 0.1), "mu": r.uniform(-0.95, -0.4)}),
    "warped": ("-mu - 2*t*cos(a*kx) - 2*tb*cos(b*ky) - 2*tz*cos(c*kz/2)",
               lambda r: {"tz": r.uniform(0.05, 0.3), "mu": r.uniform(-2.2, -0.8), "tb": r.uniform(0.7, 1.3), "t": r.uniform(0.8, 1.2)}),
    "closed": ("-mu - 2*t*(cos(a*kx) + cos(b*ky)) - 2*tz*cos(c*kz/2)",
               lambda r: {"mu": r.uniform(-4.6, -4.0), "t": 1.0, "tz": r.uniform(0.4, 0.6)}),
    "ends": ("-mu - 2*t*(cos(a*kx) + cos(b*ky)) + 2*tz*cos(c*kz/2)",
             lambda r: {"mu": r.uniform(-4.6, -4.0), "tz": r.uniform(0.4, 0.6), "t": 1.0}),
    "plane": ("-mu - 2*t*(cos(a*kx) + cos(b*ky)) - 4*tp*cos(a*kx)*cos(b*ky)",
              lambda r: {"tp": r.uniform(-0.3, -0.05), "t": r.uniform(0.9, 1.1), "mu": r.uniform(-1.6, -0.8)}),
    "skew": ("-mu - 2*t*cos(a*kx) - 2*Tb*cos(b*ky) - 2*d*sin(a*kx)*sin(b*ky) - 2*tz*cos(c*kz/2 + a*kx)",
             lambda r: {"mu": r.uniform(-2.0, -1.0), "Tb": r.uniform(0.8, 1.2), "d": r.uniform(0.1, 0.3), "tz": r.uniform(0.05, 0.2), "t": 1.0}),
    "free": ("-mu + al*(kx**2 + ky**2 + bz*kz**2)",
             lambda r: {"bz": r.uniform(0.5, 2), "al": r.uniform(1, 3), "mu": r.uniform(0.1, 0.3)}),
}


class Ref:
    """the same band, evaluated from the expression text"""

    def __init__(self, model, a, b, c, es, params, k_max, nbz=1):
        self.code = compile(model.strip(), "model", "eval")
        self.a, self.b, self.c, self.es, self.params, self.k_max, self.nbz = a, b, c, es, dict(params), list(k_max), nbz

    def E(self, kx, ky, kz):
        env = dict(FNS, kx=kx, ky=ky, kz=kz, a=self.a, b=self.b, c=self.c)
        env.update({k: v * self.es for k, v in self.params.items()})
        return eval(self.code, {"__builtins__": {}}, env) + 0 * (np.asarray(kx) + np.asarray(ky) + np.asarray(kz))

    def v(self, kx, ky, kz):
        """gradient by complex step, in m/s"""
        h, out = 1e-30, []
        k = [np.asarray(x, complex) for x in (kx, ky, kz)]
        for q in range(3):
            z = [x + (1j * h if p == q else 0) for p, x in enumerate(k)]
            out.append(np.imag(self.E(*z)) / h * MEV / hbar * ANG)
        return out

    def grid(self, res):
        ax = [np.linspace(-km / l, km / l, n) for km, l, n in zip(self.k_max, (self.a, self.b, self.c), res)]
        K = np.meshgrid(*ax, indexing="ij")
        return self.E(*K), ax


def shuffled(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def lattice(rng, square=None):
    a = rng.uniform(2.5, 5)
    b = a if (rng.random() < 0.4 if square is None else square) else a * rng.uniform(0.6, 1.6)
    return a, b, rng.uniform(5, 15)


def spec(rng, kinds=None, square=None, nbz=None, odd=True):
    kind = rng.choice(kinds or ["cuprate", "warped", "closed", "plane", "skew", "ends"])
    model, gen = MODELS[kind]
    a, b, c = lattice(rng, square)
    p = shuffled(rng, {k: float(v) for k, v in gen(rng).items()})
    km = [pi, pi, 2 * pi]
    if kind == "free":
        km = [2.0 * a / 1, 2.0 * b, 2.0 * c]
    res = [int(rng.choice([11, 13, 15, 17])), int(rng.choice([11, 13, 15, 17])), int(rng.choice([5, 7, 9]))]
    return dict(kind=str(kind), band_model=model, a=float(a), b=float(b), c=float(c), energy_scale=float(rng.uniform(20, 300)), band_params=p,
                k_max=km, resolution=res, number_of_bz=int(nbz or rng.choice([1, 1, 2])))


def scales(rng, s):
    """sometimes another unit of length or energy"""
    if rng.random() < 0.3 and s["kind"] != "free":
        f = float(10 ** rng.uniform(-1.5, 3))
        for q in "abc":
            s[q] *= f
    if rng.random() < 0.3:
        s["energy_scale"] = float(10 ** rng.uniform(-3, 5))
    if rng.random() < 0.2 and "tz" in s["band_params"]:
        s["band_params"]["tz"] *= float(10 ** rng.uniform(-5, -1))
    return s


def make(s, cls=None, **kw):
    from cuprates_transport.bandstructure import BandStructure
    d = {k: v for k, v in s.items() if k != "kind"}
    d["band_params"], d["k_max"], d["resolution"] = dict(d["band_params"]), list(d["k_max"]), list(d["resolution"])
    d.update(kw)
    return (cls or BandStructure)(**d)


def ref(s, **kw):
    d = dict(s, **kw)
    return Ref(d["band_model"], d["a"], d["b"], d["c"], d["energy_scale"], d["band_params"], d["k_max"], d["number_of_bz"])


def small(cap=15):
    """the package's band with its sampling grids capped, so that the default 500^3 grid stays affordable"""
    from cuprates_transport.bandstructure import BandStructure

    class Small(BandStructure):
        CAP = cap

        def dispersion_grid(self, resolution):
            return super().dispersion_grid([min(int(r), self.CAP) for r in resolution])
    return Small
