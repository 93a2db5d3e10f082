from common import *

AD = "admr.ADMR."


def abstract_cond_class(h):
    """Conductivity whose run is replaced by what its own contracts leave to a caller: a tensor determined by the
    settings in force when it is run (C14), of which the sweep changes the field"""
    C = h.mod("conductivity").Conductivity

    class AbstractRun(C):
        def runTransport(self):
            b = [self.B_vector[q] for q in range(3)]
            self.sigma = tensor_of(self.bandObject.band_name, b)
            self.bandObject.n = Num(FN("filling_after", self.bandObject.band_name, *[poly(x) for x in b]))
            self.bandObject.p = 1 - self.bandObject.n
    return AbstractRun


def tensor_of(tag, b):
    b = [poly(x) for x in b]
    return Arr((P(3), P(3)), lambda idx: FN("sigma_of", tag, idx[0], idx[1], *b), "f")


def bands(h, K):
    C = abstract_cond_class(h)
    out, B = [], []
    for l in range(K):
        band = mkband(h, tag="_%d" % l)
        band.n = h.real("n0_%d" % l)
        B.append(h.real("Bamp%d" % l))
        out.append(C(bandObject=band, Bamp=B[-1], Btheta=h.real("th0_%d" % l), Bphi=h.real("ph0_%d" % l), T=0,
                     scattering_models=VList(["isotropic"]), scattering_params=VDict({"gamma_0": h.real("g0_%d" % l, pos=True)})))
    return out, B


def zz(s):
    """zz element of the inverse of a 3x3 matrix"""
    return np.linalg.inv(s)[2, 2]


def angles(h, admr, sfx=""):
    """any azimuths and polar angles"""
    nphi, nth = h.nat("nphi" + sfx, 1), h.nat("nth" + sfx, 1)
    admr.Bphi_array, admr.Btheta_array = h.arr("phi" + sfx, nphi), h.arr("theta" + sfx, nth)
    return nphi, nth


def rho_ref(admr, conds, B, nphi, nth):
    ph, th = asarr(admr.Bphi_array), asarr(admr.Btheta_array)

    def at(idx):
        t, p = Num(th.get((idx[1],))), Num(ph.get((idx[0],)))
        s = None
        for c, b in zip(conds, B):
            x = tensor_of(c.bandObject.band_name, field_ref(b, t, p))
            s = x if s is None else s + x
        return poly(zz(s))
    return Arr((poly(nphi), poly(nth)), at, "f")


def map_ok(h, name, admr, conds, B, nphi, nth):
    want = rho_ref(admr, conds, B, nphi, nth)
    h.eq(name + "zz of the inverse of the summed conductivity at that direction", admr.rhozz_array, want)
    x = admr.Btheta_norm
    th = asarr(admr.Btheta_array)
    i = ranged(fresh("i", nonneg=True), poly(nphi))
    j = ranged(fresh("j", nonneg=True), poly(nth))
    rows_ = lambda a: Arr((poly(nth),), lambda idx: asarr(a).get((i, idx[0])), "f")
    norm = np.interp(x, th, rows_(want))
    h.eq(name + "each row divided by its own value at the reference angle", Num(asarr(admr.rzz_array).get((i, j))), Num(want.get((i, j))) / norm)
    h.eq(name + "each row is one at the reference angle", np.interp(x, th, rows_(admr.rzz_array)), 1)


@contract("C15", [AD + "runADMR", AD + "__init__"], variants=[dict(K=k, progress=p) for k in (1, 2, 3) for p in (True, False)],
          bounded="up to three bands; any number of azimuths and polar angles (any_number_of_bands: any number of bands)")
def sweep(h, K, progress):
    conds, B = bands(h, K)
    admr = h.mod("admr").ADMR(VList(conds), Btheta_norm=h.real("norm"), show_progress=progress)
    nphi, nth = angles(h, admr)
    admr.runADMR()
    map_ok(h, "", admr, conds, B, nphi, nth)


@contract("C15", [AD + "runADMR"], variants=[dict(change=c) for c in ("nothing", "field", "angles", "norm", "bands")],
          bounded="two bands, two sweeps (any_number_of_bands: any number, from the state any earlier sweeps left)")
def second_sweep(h, change):
    """the second sweep of one object: nothing left over from the first"""
    conds, B = bands(h, 2)
    admr = h.mod("admr").ADMR(VList(conds), Btheta_norm=h.real("norm"), show_progress=False)
    nphi, nth = angles(h, admr)
    admr.runADMR()
    if change == "field":
        B = [h.real("Bnew%d" % l) for l in range(2)]
        for c, b in zip(conds, B):
            c.Bamp = b
    elif change == "angles":
        nphi, nth = angles(h, admr, "_new")
    elif change == "norm":
        admr.Btheta_norm = h.real("norm_new")
    elif change == "bands":
        conds, B = [conds[1], conds[0]], [B[1], B[0]]
        admr.condObject_list = VList(conds)
    admr.runADMR()
    map_ok(h, "second sweep: ", admr, conds, B, nphi, nth)


@contract("C15", [AD + "runADMR"], variants=[dict(phis=p) for p in ((0, 15), (45, 0), (30,))], bounded="listed angles")
def constructor_angles(h, phis):
    """azimuths given to the constructor, polar angles spaced by the step"""
    conds, B = bands(h, 1)
    admr = h.mod("admr").ADMR(VList(conds), Btheta_min=-5, Btheta_max=5, Btheta_step=5, Bphi_array=VList(phis), show_progress=False,
                              Btheta_norm=h.real("norm"))
    for q in range(3):
        h.eq("polar angle %d" % q, admr.Btheta_array[q], 5 * q - 5)
    h.eq("number of polar angles", Num(dsize(asarr(admr.Btheta_array).shape_[0])), 3)
    h.eq("number of azimuths", Num(dsize(asarr(admr.Bphi_array).shape_[0])), len(phis))
    admr.runADMR()
    for i, p in enumerate(phis):
        h.eq("azimuth", admr.Bphi_array[i], p)
        for j in range(3):
            h.eq("entry of its own direction", admr.rhozz_array[i, j], zz(tensor_of(conds[0].bandObject.band_name, field_ref(B[0], Num(P(5 * j - 5)), Num(P(p))))))


@contract("C15", [AD + "runADMR", "conductivity.Conductivity.runTransport"], variants=[dict(K=k) for k in (1, 2)],
          bounded="up to two bands; any number of azimuths, polar angles, points and time steps")
def sweep_of_real_runs(h, K):
    """the real runs inside the sweep: every entry is the tensor of a fresh calculation with that field"""
    C = h.mod("conductivity").Conductivity
    conds, fresh_ones = [], []
    for l in range(K):
        band = mkband(h, tag="_%d" % l)
        fermi_surface(h, band, "_%d" % l)
        band.n = h.real("n0_%d" % l)
        vals = scattering_values(h, "_%d" % l)
        B = h.real("Bamp%d" % l, pos=True)
        conds.append(mkcond(h, band, vals=vals, tag="_%d" % l, B=(B, h.real("th0_%d" % l), h.real("ph0_%d" % l))))
        fresh_ones.append((band, vals, B))
    admr = h.mod("admr").ADMR(VList(conds), Btheta_norm=h.real("norm"), show_progress=False)
    nphi, nth = angles(h, admr)
    admr.runADMR()
    ph, th = asarr(admr.Bphi_array), asarr(admr.Btheta_array)
    i = ranged(fresh("i", nonneg=True), poly(nphi))
    j = ranged(fresh("j", nonneg=True), poly(nth))
    s = None
    for l, (band, vals, B) in enumerate(fresh_ones):
        c = mkcond(h, band, vals=vals, tag="_%d" % l, B=(B, Num(th.get((j,))), Num(ph.get((i,)))))
        c.runTransport()
        s = c.sigma if s is None else s + c.sigma
    h.eq("entry is the zz resistivity of fresh runs", Num(asarr(admr.rhozz_array).get((i, j))), zz(s))


# ------------------------------------------------------------------ any number of bands, any number of sweeps
class AnyCond:
    """one of any number of conductivity objects, as its own contracts leave it: a run stores the tensor determined by
    the object and its field, and the filling of its band"""
    _pv_spec = True

    def __init__(self, store, i):
        self.__dict__.update(_store=store, _i=Num(P(i)))

    def runTransport(self):
        s, i = self._store, self._i
        b = field_ref(*[s[f][i] for f in ("Bamp", "Btheta", "Bphi")])
        s["sigma"][i] = tensor_at(i, *b)
        s["n"][i] = filling_left(i, *b)

    def __getattr__(self, k):
        if k == "bandObject":
            return AnyBandOf(self._store, self._i)
        if k in ("Bamp", "Btheta", "Bphi"):
            return self._store[k][self._i]
        if k == "sigma":                 # a run leaves a new array, so what was read before stays as it was
            return copy_arr(self._store[k][self._i])
        raise Unsupported("%s of one of any number of conductivities" % k)

    def __setattr__(self, k, v):
        if k not in ("Bamp", "Btheta", "Bphi"):
            raise Unsupported("setting %s of one of any number of conductivities" % k)
        self._store[k][self._i] = v
        self._store["sigma"][self._i] = Arr((P(3), P(3)), lambda idx: FN("sigma_dropped", *engine.flat_idx(idx), self._i.p, poly(v)), "f")


class AnyBandOf:
    _pv_spec = True

    def __init__(self, store, i):
        self.__dict__.update(_store=store, _i=i, band_name="band")

    def __getattr__(self, k):
        if k == "n":
            return self._store["n"][self._i]
        if k == "p":
            return 1 - self._store["n"][self._i]
        raise Unsupported("%s of the band of one of any number of conductivities" % k)

    def __setattr__(self, k, v):
        raise Unsupported("setting %s of the band of one of any number of conductivities" % k)


def tensor_at(i, *b):
    return Arr((P(3), P(3)), lambda idx: FN("sigma_at", idx[0], idx[1], poly(i), *[poly(x) for x in b]), "f")


def filling_left(i, *b):
    return Num(FN("filling_left", poly(i), *[poly(x) for x in b]))


def any_conds(h):
    nb = h.nat("nbands", 1)
    store = {f: h.arr(f + "_bands", nb) for f in ("Bamp", "Btheta", "Bphi", "n")}
    store["sigma"] = h.arr("sigma_bands", nb, 3, 3)
    return nb, store, engine.HeapSeq(poly(nb), lambda i: AnyCond(store, i), store.values())


def any_sweep(h, progress):
    """a sweep object after anything it may have done before, swept once more"""
    nb, store, conds = any_conds(h)
    admr = h.mod("admr").ADMR(conds, Btheta_norm=h.real("norm"), show_progress=progress)
    nphi, nth = angles(h, admr)
    admr.rhozz_array = h.arr("rho_before", h.nat("n1", 1), h.nat("n2", 1))
    admr.rzz_array = h.arr("rzz_before", h.nat("n3", 1), h.nat("n4", 1))
    admr.total_filling, admr.total_hole_doping = h.real("n_before"), h.real("p_before")
    amp = copy_arr(store["Bamp"])
    admr.runADMR()
    return admr, nb, store, amp, nphi, nth


@contract("C15", [AD + "runADMR", AD + "__init__"], variants=[dict(progress=p) for p in (True, False)])
def any_number_of_bands(h, progress):
    admr, nb, store, amp, nphi, nth = any_sweep(h, progress)
    ph, th = asarr(admr.Bphi_array), asarr(admr.Btheta_array)

    def at(idx):
        t, p = th.get((idx[1],)), ph.get((idx[0],))
        # the sum over the bands of their tensors at this direction
        def tensors(q):
            b = field_ref(Num(amp.get((q[0],))), Num(t), Num(p))
            return tensor_at(q[0], *b).get((q[1], q[2]))
        s = np.sum(Arr((poly(nb), P(3), P(3)), tensors, "f"), axis=0)
        return poly(zz(s))
    want = Arr((poly(nphi), poly(nth)), at, "f")
    h.eq("zz of the inverse of the summed conductivity at that direction", admr.rhozz_array, want)
    i, j = ranged(fresh("i", nonneg=True), poly(nphi)), ranged(fresh("j", nonneg=True), poly(nth))
    rows_ = lambda a: Arr((poly(nth),), lambda idx: asarr(a).get((i, idx[0])), "f")
    norm = np.interp(admr.Btheta_norm, th, rows_(want))
    h.eq("each row divided by its own value at the reference angle", Num(asarr(admr.rzz_array).get((i, j))), Num(want.get((i, j))) / norm)
    h.eq("each row is one at the reference angle", np.interp(admr.Btheta_norm, th, rows_(admr.rzz_array)), 1)
    h.eq("field strengths unchanged", store["Bamp"], amp)
