from common import *

BS = "bandstructure.BandStructure."


def ref_triangulation(sp, res, eps):
    """vertices (in grid coordinates) and areas of the library's triangulation of the energy grid at the level"""
    E = grid_energy(sp, res)
    step = [2 * sp.k_max[q] / [sp.a, sp.b, sp.c][q] / (res[q] - 1) for q in range(3)]
    verts, faces, _, _ = libs.marching_cubes(E, level=eps, spacing=(1, 1, 1))
    k0 = [-(sp.k_max[q] / [sp.a, sp.b, sp.c][q]) for q in range(3)]

    def vert(i, q):
        return k0[q] + step[q] * Num(verts.get((poly(i), P(q))))

    def corner(f, c, q):
        return vert(faces.get((poly(f), P(c))), q)

    def area(f):
        u = [corner(f, 1, q) - corner(f, 0, q) for q in range(3)]
        w = [corner(f, 2, q) - corner(f, 0, q) for q in range(3)]
        x = u[1] * w[2] - u[2] * w[1]
        y = u[2] * w[0] - u[0] * w[2]
        z = u[0] * w[1] - u[1] * w[0]
        return (x * x + y * y + z * z) ** Fr(1, 2) / 2
    return verts.shape_[0], faces, vert, area


@contract("C03", [BS + "marching_cube", BS + "dispersion_grid", BS + "discretize_fermi_surface"],
          variants=[dict(via=v) for v in ("marching_cube", "discretize", "default level")],
          assumes=["skimage.measure.marching_cubes returns spacing times the unit-grid vertices; every vertex belongs to a "
                   "face; level sets of f at l are those of f - l at 0"])
def triangulated_surface(h, via):
    band = mkband(h)
    sp = band._spec
    res = set_res(h, band)
    eps = h.real("eps") if via != "default level" else 0
    if via == "discretize":
        band.march_square = False
        band.discretize_fermi_surface(epsilon=eps)
        kf, dkf = band.kf, band.dkf
    elif via == "marching_cube":
        kf, dkf = band.marching_cube(eps)
    else:
        kf, dkf = band.marching_cube()
    nv, faces, vert, area = ref_triangulation(sp, res, eps)
    want = Arr((P(3), nv), lambda idx: sym.pick([lambda r, q=q: poly(vert(idx[1], q)) for q in range(3)], idx[0], ()), "f")
    h.eq("wavevectors are the vertices in zone coordinates", kf, want)
    nf = faces.shape_[0]

    def weight(idx):
        f = ranged(fresh("f", nonneg=True), nf)
        tot = ZERO
        for c in range(3):
            tot = tot + IV("eq", faces.get((f, P(c))) - idx[0]) * poly(area(f)) / 3
        return SUM(f, nf, tot)
    h.eq("one third of the area of every triangle meeting at the vertex", dkf, Arr((nv,), weight, "f"))
    i = ranged(fresh("i", nonneg=True), nv)
    h.nonneg("weights are never negative", dkf[Num(i)] if False else Num(asarr(dkf).get((i,))))


@contract("C03", [BS + "marching_cube"])
def weights_add_up(h):
    band = mkband(h)
    res = set_res(h, band)
    eps = h.real("eps")
    kf, dkf = band.marching_cube(eps)
    nv, faces, vert, area = ref_triangulation(band._spec, res, eps)
    f = ranged(fresh("f", nonneg=True), faces.shape_[0])
    tot = Num(SUM(f, faces.shape_[0], poly(area(f))))
    h.eq("weights add up to the triangulated area", np.sum(dkf), tot)
