from common import *
from c17 import FM, FIT, SIM, model, ndict, same_nested

DATA = FM + "DataADMR."
ANG = FM + "FitAnglesADMR."


def column(fname, k):
    rows_ = V("rows:%s" % fname, integer=True, pos=True)
    return Arr((rows_,), lambda idx: FN("file:%s" % fname, idx[0], P(k)), "f")


def interp_ref(x, fname, ct, cr):
    """the file's column cr, sorted by its column ct, linearly interpolated at x"""
    th, rho = column(fname, ct), column(fname, cr)
    o = np.argsort(th)
    return np.interp(x, th[o], rho[o])


COLS = ((0, 1), (2, 1), (3, 8))
CASES = ((25, (0,)), (25, (0, 45)), (6, (30, 0, 15)))


def files(h, temps, cols):
    """data dictionary: (T, phi) -> file, columns, smallest, largest angle, step, reference angle, factor"""
    d = VDict()
    for t, phis in temps:
        norm = h.real("thn_%d" % t)
        for p in phis:
            s = "_%d_%d" % (t, p)
            d[t, p] = VList(["f%d_%d.dat" % (t, p), cols[0], cols[1], h.real("thmin" + s), h.real("thmax" + s), h.real("step" + s, pos=True), norm, h.real("factor" + s)])
    return d


@contract("C18", [DATA + "__init__", DATA + "load_data"], variants=[dict(case=c, cols=k) for c in CASES for k in COLS],
          bounded="listed azimuths and columns; any number of file rows and simulation angles")
def data(h, case, cols):
    m = h.mod("fitting_admr_parallel_multiT")
    d = files(h, (case, (99, (0, 45, 30))), cols)
    T_, phis = case
    nth = h.nat("nth", 1)
    theta = h.arr("theta_sim", nth)
    was = ndict(d)
    obj = m.DataADMR(T_, d, np.array(VList(phis)), theta)
    norm = h.real("norm")
    obj.load_data(norm)
    j = ranged(fresh("j", nonneg=True), poly(nth))
    for i, p in enumerate(phis):
        f = "f%d_%d.dat" % (T_, p)
        want = interp_ref(Num(theta.get((j,))), f, *cols)
        h.eq("absolute data scaled by the factor", Num(asarr(obj.rhozz_data_matrix).get((P(i), j))), want * d[T_, p][7])
        h.eq("normalized data divided by the value at the reference angle", Num(asarr(obj.rzz_data_matrix).get((P(i), j))), want / interp_ref(norm, f, *cols))
    h.eq("one row per azimuth", Num(dsize(asarr(obj.rzz_data_matrix).shape_[0])), len(phis))
    h.eq("one column per angle", Num(dsize(asarr(obj.rzz_data_matrix).shape_[1])), nth)
    same_nested(h, "caller's dictionary unchanged", d, was)


PICKS = [dict(case=c, pick=p) for c in CASES for p in ([(a, b, e) for a in range(len(c[1])) for b in range(len(c[1])) for e in range(len(c[1]))]
         if len(c[1]) < 3 else [(0, 1, 2), (2, 2, 0), (1, 0, 1), (2, 1, 2), (0, 2, 1)])] + [dict(case=c, pick=None) for c in CASES[1:]]


def ranges(h, d, t, phis, pick):
    """smallest and largest angle of one temperature, at least two steps apart"""
    lo, hi, st = ([d[t, p][k] for p in phis] for k in (3, 4, 5))
    if pick is None:
        for p in phis:
            for k in (3, 4, 5):
                d[t, p][k] = d[t, phis[0]][k]
        pick = (0, 0, 0)
    else:
        for q in range(len(phis)):
            if q != pick[0]:
                h.assume(lo[pick[0]] < lo[q])
            if q != pick[1]:
                h.assume(hi[q] < hi[pick[1]])
            if q != pick[2]:
                h.assume(st[pick[2]] < st[q])
    h.assume(hi[pick[1]] - lo[pick[0]] >= 2 * st[pick[2]])
    return lo[pick[0]], hi[pick[1]]


@contract("C18", [ANG + "__init__", ANG + "create_angles"], variants=PICKS, bounded="listed azimuths; any bounds, steps and numbers of angles, in the listed orders")
def angle_grid(h, case, pick):
    """pick: which azimuth has the smallest lower bound, largest upper bound and smallest step; None: all the same"""
    m = h.mod("fitting_admr_parallel_multiT")
    d = files(h, (case, (99, (0, 45, 30))), (0, 1))
    T_, phis = case
    mn, mx = ranges(h, d, T_, phis, pick)
    obj = m.FitAnglesADMR(T_, d)
    got_phi, got_th = obj.create_angles()
    h.eq("azimuths of that temperature", got_phi, np.array(VList(phis)))
    h.eq("azimuths kept", obj.Bphi_array, np.array(VList(phis)))
    h.eq("reference angle of that temperature", obj.Btheta_norm, d[T_, phis[0]][6])
    g = asarr(got_th)
    n = Num(dsize(g.shape_[0]))
    h.eq("smallest requested angle first", g[0], mn)
    h.eq("largest requested angle last", g[-1], mx)
    j = ranged(fresh("j", nonneg=True), poly(n))
    h.eq("evenly spaced", Num(g.get((j,))), mn + (mx - mn) * Num(j) / (n - 1))
    h.eq("grid kept", Num(asarr(obj.Btheta_array).get((j,))), Num(g.get((j,))))


def stub_sim(m):
    """SimADMR whose evaluation is replaced by what C15 and C17 leave to a caller: two matrices of the parameters"""
    class Sim(m.SimADMR):
        def __init__(self, params_dict, Bphi_array, Btheta_array):
            self.params_dict = params_dict
            self.Bphi_array, self.Btheta_array = Bphi_array, Btheta_array

        def _set(self, d):
            self._params_dict = d
        params_dict = property(lambda self: self._params_dict, _set)

        def compute_rhozz(self, Btheta_norm=0):
            e = [poly(v) for b in sorted(self._params_dict) for v in (self._params_dict[b]["Bamp"], self._params_dict[b]["band_params"]["mu"])]
            sh = (dsize(asarr(self.Bphi_array).shape_[0]), dsize(asarr(self.Btheta_array).shape_[0]))
            g = asarr(self.Bphi_array), asarr(self.Btheta_array)
            self.rhozz_sim_matrix = Arr(sh, lambda idx: FN("sim_rho", g[0].get((idx[0],)), g[1].get((idx[1],)), *e), "f")
            self.rzz_sim_matrix = Arr(sh, lambda idx: FN("sim_rzz", g[0].get((idx[0],)), g[1].get((idx[1],)), poly(Btheta_norm), *e), "f")
    return Sim


@contract("C18", [FIT + "__init__", FIT + "compute_fitness"],
          variants=[dict(temps=t, normalized=n) for t in (((25, (0,)),), ((25, (0, 45)),), ((25, (0, 45)), (6, (30,))), ((6, (0, 15)), (12, (0,)), (25, (45, 0)))) for n in (True, False)],
          bounded="listed temperatures and azimuths; any number of file rows and angles")
def objective(h, temps, normalized):
    m = h.mod("fitting_admr_parallel_multiT")
    m.SimADMR = stub_sim(m)
    d = files(h, temps, (0, 1))
    for t, phis in temps:
        ranges(h, d, t, phis, (0, len(phis) - 1, 0))
    params = VDict({t: VDict({"A": VDict({"Bamp": h.real("B%d" % t), "band_params": VDict({"mu": h.real("mu%d" % t)}), "scattering_params": VDict()})}) for t, _ in temps})
    bounds = VDict({t: VDict({"A": VDict({"mu": VList([0, 1])})}) for t, _ in temps})
    kw = {} if normalized else {"normalized_data": False}
    f = m.Fitness(d, params, bounds, **kw)
    x = VList([h.real("x%d" % k) for k in range(len(temps))])
    got = f.compute_fitness(x)
    total = Num(ZERO)
    for k, (t, phis) in enumerate(temps):
        g = asarr(f.thetas_dict[t])
        n = dsize(g.shape_[0])
        j = ranged(fresh("j", nonneg=True), n)
        th = Num(g.get((j,)))
        for i, p in enumerate(phis):
            fn = "f%d_%d.dat" % (t, p)
            w = interp_ref(th, fn, 0, 1)
            norm = d[t, phis[0]][6]
            if normalized:
                dat = w / interp_ref(norm, fn, 0, 1)
                sim = Num(FN("sim_rzz", P(p), poly(th), poly(norm), poly(params[t]["A"]["Bamp"]), poly(x[k])))
            else:
                dat = w * d[t, p][7]
                sim = Num(FN("sim_rho", P(p), poly(th), poly(params[t]["A"]["Bamp"]), poly(x[k])))
            total = total + Num(SUM(j, n, poly((dat - sim) ** 2)))
    h.eq("sum over temperatures, azimuths and angles of squares of differences (so never negative, zero only if all are zero)", got, total)
