from common import *

CO = "conductivity.Conductivity."


def tau_longest(cond, models, sp, vals):
    b = cond.bandObject
    return np.max(tau_array(models, sp, vals, b.kf, b.vf, np.max(b.dos_k)))


def grid_ok(h, name, cond, N, longest):
    span = 8 * longest
    h.eq(name + ": exactly the requested number of samples", Num(dsize(asarr(cond.time_array).shape_[0])), N)
    h.eq(name + ": spans eight times the longest lifetime", cond.time_max, span)
    h.eq(name + ": step", cond.dtime, span / N)
    want = Arr((poly(N),), lambda idx: poly(span / N) * idx[0], "f")
    h.eq(name + ": starts at zero, equal steps", cond.time_array, want)
    h.eq(name + ": number of steps reads back", cond.N_time, N)


@contract("C11", [CO + "reset_time", CO + "time_grid", CO + "tau_total_max", CO + "_set_N_time"],
          variants=[dict(hist=x, models=m) for m in (("isotropic",), ("isotropic", "cos2phi", "gamma_dos_func"))
                    for x in ("run", "N before", "N after", "N before and after", "second run", "N after, run, N after")])
def time_grid(h, hist, models):
    band = mkband(h)
    sp = band._spec
    fermi_surface(h, band)
    vals = scattering_values(h)
    N = h.nat("Nt", 2)
    cond = mkcond(h, band, models, vals=vals, N_time=N)
    if hist.startswith("N before"):
        N = h.nat("Nt2", 2)
        cond.N_time = N
        h.eq("accepted before a run", cond.N_time, N)
    cond.reset_time()
    grid_ok(h, "run", cond, N, tau_longest(cond, models, sp, vals))
    if hist == "second run":
        vals = scattering_values(h, "_new")
        cond.scattering_params = VDict(vals)
        fermi_surface(h, cond.bandObject, "_new")
        cond.reset_time()
        grid_ok(h, "second run", cond, N, tau_longest(cond, models, sp, vals))
    if "after" in hist:
        N = h.nat("Nt3", 2)
        cond.N_time = N
        grid_ok(h, "changed after the run", cond, N, tau_longest(cond, models, sp, vals))
    if hist == "N after, run, N after":
        cond.reset_time()
        grid_ok(h, "run again", cond, N, tau_longest(cond, models, sp, vals))
        N = h.nat("Nt4", 2)
        cond.N_time = N
        grid_ok(h, "changed again", cond, N, tau_longest(cond, models, sp, vals))


@contract("C11", [CO + "_set_N_time", CO + "solve_movement", CO + "t_o_tau_func", CO + "runTransport"],
          variants=[dict(hist=x) for x in ("N before", "N after", "N twice")])
def run_after_change(h, hist):
    """the orbits and exponents of a run have as many samples as requested"""
    band = mkband(h)
    fermi_surface(h, band)
    cond = mkcond(h, band)
    N = h.nat("Nt2", 2)
    if hist != "N before":
        cond.runTransport()
    cond.N_time = N
    if hist == "N twice":
        N = h.nat("Nt3", 2)
        cond.N_time = N
    cond.runTransport()
    if cond.Bamp != 0:
        h.eq("samples along the orbits", Num(dsize(asarr(cond.kft).shape_[2])), N)
        h.eq("samples of the exponent", Num(dsize(asarr(cond.t_o_tau).shape_[1])), N)
        h.eq("samples of the velocities", Num(dsize(asarr(cond.vft).shape_[2])), N)
        h.eq("samples of the grid", Num(dsize(asarr(cond.time_array).shape_[0])), N)


@contract("C11", [CO + "t_o_tau_func", CO + "time_grid"],
          variants=[dict(models=m, change=c) for m in (("isotropic",), ("isotropic", "cos2phi", "gamma_dos_func"))
                    for c in ("none", "N after reset", "model after reset")])
def survival_exponent(h, models, change):
    band = mkband(h)
    sp = band._spec
    n = fermi_surface(h, band)
    vals = scattering_values(h)
    cond = mkcond(h, band, models, vals=vals)
    N = cond.N_time
    cond.reset_time()
    longest = tau_longest(cond, models, sp, vals)
    if change == "N after reset":
        N = h.nat("Nt2", 2)
        cond.N_time = N
    if change == "model after reset":
        vals = scattering_values(h, "_new")
        cond.scattering_params = VDict(vals)
    dosmax = np.max(cond.bandObject.dos_k)
    if cond.Bamp != 0:
        cond.kft, cond.vft = h.arr("kft", 3, n, N), h.arr("vft", 3, n, N)
        cond.t_o_tau_func()
        rate = elementwise(lambda t: 1 / t, tau_array(models, sp, vals, cond.kft, cond.vft, dosmax))
        step = 8 * longest / N

        def want(idx):
            q = ranged(fresh("q", nonneg=True), idx[1])
            return poly(step) * SUM(q, idx[1], rate.get((idx[0], q + 1)))
        ref = Arr((poly(n), poly(N)), want, "f")
        h.eq("sum of step times rate over the samples after the first", cond.t_o_tau, ref)
        i = ranged(fresh("i", nonneg=True), poly(n))
        j = ranged(fresh("j", nonneg=True), poly(N) - 1)
        FACTS.push(lit("lt", ONE - poly(N)))
        t = asarr(cond.t_o_tau)
        h.eq("zero at the start", Num(t.get((i, ZERO))), 0)
        inc = poly(step) * rate.get((i, j + 1))
        h.eq("increment is step times rate", Num(t.get((i, j + 1)) - t.get((i, j))), Num(inc))
    else:
        cond.kft, cond.vft = h.arr("kft", 3, n, 1), h.arr("vft", 3, n, 1)
        cond.t_o_tau_func()
        ref = elementwise(lambda t: 1 / t, tau_array(models, sp, vals, cond.kft[:, :, 0], cond.vft[:, :, 0], dosmax))
        h.eq("without field the scattering rate itself", cond.t_o_tau, ref)


@contract("C11", [CO + "t_o_tau_func"], variants=[dict(m=m) for m in MODELS5])
def exponent_never_decreases(h, m):
    """step and rate are not negative (lifetimes of non-negative amplitudes)"""
    band = mkband(h)
    sp = band._spec
    n = fermi_surface(h, band)
    vals = scattering_values(h)
    cond = mkcond(h, band, ("isotropic", m), vals=vals)
    cond.reset_time()
    i = ranged(fresh("i", nonneg=True), poly(n))
    j = ranged(fresh("j", nonneg=True), poly(cond.N_time) - 1)
    k = [Num(FN("k%d" % q, i, j)) for q in range(6)]
    h.nonneg("rate not negative", poly(1 / tau_ref(("isotropic", m), sp, vals, k[:3], k[3:], np.max(cond.bandObject.dos_k))))
    h.nonneg("step not negative", poly(cond.dtime))
