from common import *

BS = "bandstructure.BandStructure."


def dims_of(d):
    """structure of the stored points: list of (slice var, slices, contour var, contours, points dims)"""
    if isinstance(d, CatDim):
        segs = [s for s in d.segs if not (isinstance(s, Poly) and s is ZERO)]
        return segs[0] if len(segs) == 1 else None
    return d


class Slices:
    """reference discretization of one slice, from the property statement"""

    def __init__(self, h, sp, res, R, eps, tetra):
        self.h, self.sp, self.res, self.R, self.eps, self.tetra = h, sp, res, R, eps, tetra

    def kz(self, j):
        kb = self.sp.k_max[2] / self.sp.c
        return -kb + 2 * kb * Num(poly(j)) / (self.res[2] - 1)

    def dkz(self):
        return 2 * self.sp.k_max[2] / self.sp.c / (self.res[2] - 1)

    def coord(self, q, u):
        """reciprocal-space coordinate of the (fractional) grid index u"""
        kb = self.sp.k_max[q] / [self.sp.a, self.sp.b][q]
        if self.tetra:
            return kb * u / (self.R - 1)
        return -kb + 2 * kb * u / (2 * self.R - 1)

    def contours(self, j):
        n = self.R if self.tetra else 2 * self.R
        n = poly(n)
        E = Arr((n, n), lambda idx: poly(self.sp.E(self.coord(0, Num(idx[0])), self.coord(1, Num(idx[1])), self.kz(j))), "f")
        return libs.find_contours(E, self.eps)

    def contour(self, j, i):
        """reciprocal coordinates, arc length and total length of contour i of slice j"""
        c = self.contours(j).item(poly(i))
        m = c.shape_[0]
        X = Arr((m,), lambda idx: poly(self.coord(0, Num(c.get((idx[0], P(0)))))), "f")
        Y = Arr((m,), lambda idx: poly(self.coord(1, Num(c.get((idx[0], P(1)))))), "f")

        def arc(idx):
            q = ranged(fresh("q", nonneg=True), idx[0])
            d = ppow((X.get((q + 1,)) - X.get((q,))) ** 2 + (Y.get((q + 1,)) - Y.get((q,))) ** 2, Fr(1, 2))
            return SUM(q, idx[0], d)
        S = Arr((m,), arc, "f")
        return X, Y, S, Num(S.get((m - 1,)))


@contract("C04", [BS + "marching_square", BS + "rotation", BS + "discretize_fermi_surface"],
          variants=[dict(tetra=t, via=v) for t in (True, False) for v in ("marching_square", "discretize")],
          assumes=["skimage.measure.find_contours returns for each contour at least two points in grid units; numpy.interp"])
def sliced_surface(h, tetra, via):
    band = mkband(h, tetra=tetra)
    sp = band._spec
    if not tetra:
        h.assume(not_(sp.a == sp.b))
    if tetra:
        h.assume(sp.k_max[0] == sp.k_max[1]) if False else None
    res = set_res(h, band)
    R = h.nat("R", 2)
    band.res_xy_rough = R
    eps = h.real("eps")
    if via == "discretize":
        band.march_square = True
        band.discretize_fermi_surface(epsilon=eps)
        kf, dkf = band.kf, band.dkf
    else:
        kf, dkf = band.marching_square(eps)
    ref = Slices(h, sp, res, R, eps, tetra)
    outer = dims_of(kf.shape_[1])
    if not (isinstance(outer, LoopSeg) and isinstance(dims_of(outer.dim), LoopSeg)):
        return h.undecided("structure of the stored points", "points are %r" % (kf.shape_[1],))
    h.eq("one group of points per slice", Num(outer.hi), res[2])
    j = ranged(fresh("j", nonneg=True), poly(res[2]))
    inner = dims_of(outer.at(j))
    h.eq("one group of points per contour of the slice", Num(inner.hi), Num(ref.contours(j).n))
    i = ranged(fresh("i", nonneg=True), inner.hi)
    FACTS.push(lit("lt", -inner.hi))
    d = inner.at(i)
    merged = isinstance(d, Poly) and tetra
    quarters = list(d.segs) if isinstance(d, CatDim) else ([d * Fr(1, 4)] * 4 if merged else [d])
    h.check("number of rotated copies", len(quarters) == (4 if tetra else 1), repr(d))
    npts = dsize(quarters[0])
    for q in quarters[1:]:
        h.eq("as many points in every rotated copy", Num(dsize(q)), Num(npts))
    h.true("at least three points per contour", Num(npts) >= 3)
    X, Y, S, L = ref.contour(j, i)
    for q in range(len(quarters)):
        p = dim_index(quarters[q], "p")
        pos = (i, (q, p)) if isinstance(d, CatDim) else (i, q * npts + p)
        full = wrap(kf.shape_[1], outer, j, wrap(outer.at(j), inner, None, pos))
        arc = Num(P(p)) * L / Num(npts)
        x, y = np.interp(arc, S, X), np.interp(arc, S, Y)
        # rotations by 90, 180, 270 degrees (tetragonal: both axes have the same lattice constant)
        pts = {(x, y)} if False else [(x, y), (y, -x), (-x, -y), (-y, x)]
        gx, gy, gz = (Num(kf.get((P(c), full))) for c in range(3))
        want = pts[q]
        h.eq("kx equally spaced along the contour (copy %d)" % q, gx, want[0])
        h.eq("ky equally spaced along the contour (copy %d)" % q, gy, want[1])
        h.eq("kz of the slice", gz, ref.kz(j))
        h.eq("weight is the spacing times the slice spacing", Num(dkf.get((full2(dkf, full),))), L / Num(npts) * ref.dkz())
        h.eq("stored arc spacing", Num(band.dks.get((full2(band.dks, full),))), L / Num(npts))
        h.eq("stored slice spacing", Num(band.dkz.get((full2(band.dkz, full),))), ref.dkz())
    # per-slice counts
    cnt = asseq_len(band.number_of_points_per_kz_list)
    if cnt is None:
        return h.undecided("per-slice point counts", "list not summarised")
    n, item = cnt
    h.eq("one count per slice", Num(n), res[2])
    FACTS.reset(FACTS.mark() - 1)
    h.eq("count of the slice is the number of points stored", item(j), Num(dsize(outer.at(j))))


def full2(a, full):
    return full


def wrap(d, inner, j, pos):
    """index into d of position pos of its loop segment"""
    x = pos if j is None else (j, pos)
    if isinstance(d, CatDim):
        k = [q for q, s in enumerate(d.segs) if not (isinstance(s, Poly) and s is ZERO)]
        return (k[0], x)
    return x


def asseq_len(v):
    if getattr(v, "segs", None) is not None:
        segs = [s for s in v.segs if not (isinstance(s, (list, tuple)) and not s)]
        if len(segs) == 1 and isinstance(segs[0], SymSeq):
            return segs[0].n, segs[0].item
        return None
    return None
