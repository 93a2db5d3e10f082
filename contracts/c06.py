from common import *

BS = "bandstructure.BandStructure."


def occupied(sp, res):
    """number of grid points with energy at or below zero"""
    E = grid_energy(sp, res)
    vs = [ranged(fresh("i", nonneg=True), poly(r)) for r in res]
    p = cond_poly(lit("le", E.get(tuple(vs))))
    for v, r in reversed(list(zip(vs, res))):
        p = SUM(v, poly(r), p)
    return Num(p)


def filling_ref(sp, res):
    return 2 / sp.number_of_bz * occupied(sp, res) / (res[0] * res[1] * res[2])


@contract("C06", [BS + "update_filling", BS + "doping", BS + "filling", BS + "dispersion_grid"],
          variants=[dict(via=v) for v in ("update_filling", "doping", "doping printed", "filling", "run")])
def filling_and_doping(h, via):
    band = mkband(h)
    sp = band._spec
    res = [h.nat("r" + x, 2) for x in "xyz"]
    stale_fs(h, band)
    if via == "run":
        rr = set_res(h, band)
        res = [10 * r for r in rr]
        band.runBandStructure(epsilon=h.real("eps"))
        out = None
    elif via == "doping printed":
        out = band.doping(res[0], res[1], res[2], printDoping=True)
    else:
        out = getattr(band, via)(res[0], res[1], res[2])
    n = filling_ref(sp, res)
    if out is not None:
        h.eq("returned value", out, 1 - n if "doping" in via else n)
    h.eq("stored filling", band.n, n)
    h.eq("stored doping is one minus the filling", band.p, 1 - Num(poly(band.n)))
    h.true("filling not negative", Num(poly(band.n)) >= 0)
    # fraction <= 1: the count of points not occupied is not negative
    rest_count(h, sp, res, band.n)


def rest_count(h, sp, res, n):
    """2/nbz - n written as a count of unoccupied points"""
    E = grid_energy(sp, res)
    vs = [ranged(fresh("i", nonneg=True), poly(r)) for r in res]
    p = cond_poly(cnot(lit("le", E.get(tuple(vs)))))
    for v, r in reversed(list(zip(vs, res))):
        p = SUM(v, poly(r), p)
    other = 2 / sp.number_of_bz * Num(p) / (res[0] * res[1] * res[2])
    h.eq("2 over the number of zones minus the filling counts the empty points", 2 / sp.number_of_bz - n, other)
    # lemma: a sum of non-negative terms is not negative
    h.true("filling at most 2 over the number of zones", Num(cond_poly(cnot(lit("le", E.get(tuple(vs)))))) >= 0)


@contract("C06", [BS + "doping_per_kz", BS + "update_filling"])
def per_plane(h):
    band = mkband(h)
    sp = band._spec
    res = [h.nat("r" + x, 2) for x in "xyz"]
    n, p = band.doping_per_kz(res[0], res[1], res[2])
    E = grid_energy(sp, res)
    n3 = band.filling(res[0], res[1], res[2])

    def plane(idx):
        i, j = ranged(fresh("i", nonneg=True), poly(res[0])), ranged(fresh("j", nonneg=True), poly(res[1]))
        cnt = SUM(i, poly(res[0]), SUM(j, poly(res[1]), cond_poly(lit("le", E.get((i, j, idx[0]))))))
        return poly(2 / sp.number_of_bz * Num(cnt) / (res[0] * res[1]))
    h.eq("filling of each plane", n, Arr((poly(res[2]),), plane, "f"))
    h.eq("doping of each plane", p, 1 - asarr(n))
    h.eq("planes average to the three-dimensional filling", np.sum(n) / res[2], n3)


@contract("C06", ["bandstructure.doping"], variants=[dict(nb=k, pr=pr) for k in (1, 2, 3) for pr in (False, True)],
          bounded="1, 2 and 3 bands (any_number_of_bands: any number)")
def several_bands(h, nb, pr):
    bands = [mkband(h, tag="_%d" % i) for i in range(nb)]
    for i, b in enumerate(bands):
        stale_fs(h, b, "_%d" % i)
    p = h.mod("bandstructure").doping(VList(bands), printDoping=pr)
    tot = Num(ZERO)
    for b in bands:
        ref = filling_ref(b._spec, [500, 500, 500])
        h.eq("each band's own filling", b.n, ref)
        h.eq("each band's own doping", b.p, 1 - ref)
        tot = tot + ref
    h.eq("doping of several bands", p, 1 - tot)


@contract("C06", ["bandstructure.doping"], variants=[dict(nb=2)], bounded="2 bands (any_number_of_bands starts from any state, so any number and any repetition)")
def sum_does_not_accumulate(h, nb):
    bands = [mkband(h, tag="_%d" % i) for i in range(nb)]
    f = h.mod("bandstructure").doping
    p1 = f(VList(bands))
    p2 = f(VList(bands))
    h.eq("asked twice, answered the same", p1, p2)


# ------------------------------------------------------------------ any number of bands
declare("filling_of_band")


class AnyBand:
    """one of any number of bands, as its own contracts leave it: counting its states stores its filling, a function of
    the band and of its chemical potential"""
    _pv_spec = True

    def __init__(self, store, i):
        self.__dict__.update(_store=store, _i=Num(P(i)), band_name="band")

    def update_filling(self, res_x=500, res_y=500, res_z=500):
        s, i = self._store, self._i
        n = filling_at(i.p, s["mu"][i], res_x, res_y, res_z)
        s["n"][i], s["p"][i] = n, 1 - n
        return n

    filling = update_filling

    def doping(self, res_x=500, res_y=500, res_z=500, printDoping=False):
        return 1 - self.update_filling(res_x, res_y, res_z)

    def __getattr__(self, k):
        if k in ("n", "p"):
            return self._store[k][self._i]
        raise Unsupported("%s of one of any number of bands" % k)

    def __setattr__(self, k, v):
        raise Unsupported("setting %s of one of any number of bands" % k)

    def __getitem__(self, k):
        return self._store[k][self._i]

    def __setitem__(self, k, v):
        if k not in ("mu", "t"):
            raise Unsupported("parameter %s of one of any number of bands" % k)
        self._store[k][self._i] = v
        for f in ("n", "p"):                 # a change drops what was computed before
            self._store[f][self._i] = Num(FN("dropped", poly(v), self._i.p))

    get_band_param = __getitem__
    set_band_param = __setitem__


def filling_at(i, mu, *res):
    return Num(FN("filling_of_band", P(i), poly(mu), *[poly(r) for r in res]))


def any_bands(h):
    nb = h.nat("nbands", 1)
    store = {f: h.arr(f + "_bands", nb) for f in ("n", "p", "mu", "t")}
    return nb, store, engine.HeapSeq(poly(nb), lambda i: AnyBand(store, i), store.values())


@contract("C06", ["bandstructure.doping"], variants=[dict(pr=p) for p in (False, True)])
def any_number_of_bands(h, pr):
    nb, store, bands = any_bands(h)
    mu0 = copy_arr(store["mu"])
    d = h.mod("bandstructure").doping(bands, printDoping=pr)
    fill = Arr((poly(nb),), lambda idx: poly(filling_at(idx[0], Num(mu0.get(idx)), 500, 500, 500)), "f")
    h.eq("doping of any number of bands", d, 1 - np.sum(fill))
    h.eq("each band's own filling", store["n"], fill)
    h.eq("chemical potentials unchanged", store["mu"], mu0)
