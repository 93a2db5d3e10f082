from common import *

BS = "bandstructure.BandStructure."


def dos_ref(vf):
    return Arr((asarr(vf).shape_[1],),
               lambda idx: poly(1 / (HBAR * sum((Num(asarr(vf).get((P(q), idx[0]))) ** 2 for q in range(3)), Num(ZERO)) ** Fr(1, 2))), "f")


@contract("C05", [BS + "discretize_fermi_surface", BS + "velocity_func", BS + "marching_cube", BS + "marching_square"],
          variants=[dict(square=s, zero=z, level=l) for s in (False, True) for z in ((), ("kz",)) for l in ("eps", "default")])
def velocities_and_local_dos(h, square, zero, level):
    band = mkband(h, zero=zero)
    sp = band._spec
    h.assume(not_(sp.a == sp.b))
    band.march_square = square
    set_res(h, band)
    band.res_xy_rough = h.nat("R", 2)
    stale_fs(h, band)
    if level == "eps":
        band.discretize_fermi_surface(epsilon=h.real("eps"))
    else:
        band.discretize_fermi_surface()
    kf = asarr(band.kf)
    k = [Arr((kf.shape_[1],), lambda idx, q=q: kf.get((P(q), idx[0])), "f") for q in range(3)]

    def want(idx):
        kk = [Num(x.get((idx[1],))) for x in k]
        return sym.pick([lambda r, q=q: poly(sp.v(q, *kk)) for q in range(3)], idx[0], ())
    vref = Arr((P(3), kf.shape_[1]), want, "f")
    h.eq("stored velocity is the band velocity at the Fermi wavevector", band.vf, vref)
    h.eq("local density of states is 1/(hbar |v|)", band.dos_k, dos_ref(vref))


def surface(h, band):
    n = h.nat("nkf", 1)
    band.kf, band.vf = h.arr("kf1", 3, n), h.arr("vf1", 3, n)
    band.dkf, band.dks, band.dkz, band.dos_k = (h.arr(x + "1", n) for x in ("dkf", "dks", "dkz", "dosk"))
    return n


def total_dos(dkf, dos_k):
    i = ranged(fresh("i", nonneg=True), dsize(asarr(dkf).shape_[0]))
    return 2 / (2 * PI_) ** 3 * Num(SUM(i, dsize(asarr(dkf).shape_[0]), asarr(dkf).get((i,)) * asarr(dos_k).get((i,)))) / ANG ** 2


@contract("C05", [BS + "dos_epsilon_func"])
def total_density_of_states(h):
    band = mkband(h)
    surface(h, band)
    band.dos_epsilon_func()
    h.eq("total density of states", band.dos_epsilon, total_dos(band.dkf, band.dos_k))


@contract("C05", [BS + "mass_func"])
def cyclotron_mass(h):
    band = mkband(h)
    n = surface(h, band)
    res = set_res(h, band)
    band.mass_func()
    i = ranged(fresh("i", nonneg=True), poly(n))
    perp = ppow(band.vf.get((P(0), i)) ** 2 + band.vf.get((P(1), i)) ** 2, Fr(1, 2))
    want = HBAR / (2 * PI_) * Num(SUM(i, poly(n), band.dks.get((i,)) * pinv(perp))) / ANG / res[2] / ME
    h.eq("cyclotron mass", band.mass, want)


@contract("C05", [BS + "discretize_fermi_surface", BS + "dos_epsilon_func", BS + "mass_func"])
def after_slicing(h):
    """the derived quantities of a freshly sliced surface use that surface"""
    band = mkband(h)
    sp = band._spec
    h.assume(not_(sp.a == sp.b))
    band.march_square = True
    res = set_res(h, band)
    band.res_xy_rough = h.nat("R", 2)
    band.runBandStructure(epsilon=h.real("eps"))
    band.dos_epsilon_func()
    band.mass_func()
    h.eq("total density of states of the sliced surface", band.dos_epsilon,
         2 / (2 * PI_) ** 3 * np.sum(band.dkf * band.dos_k) / ANG ** 2)
    h.eq("cyclotron mass of the sliced surface", band.mass,
         HBAR / (2 * PI_) * np.sum(band.dks / np.sqrt(band.vf[0, :] ** 2 + band.vf[1, :] ** 2)) / ANG / res[2] / ME)
