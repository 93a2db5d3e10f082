from common import *

CO = "conductivity.Conductivity."


def chambers_ref(h, cond, n, dkf, dos, v0, vint, nbz):
    """2 e^2/(2 pi)^3 / zones * sum over points of weight * dos * v_i * (integrated velocity_j)"""
    def comp(idx):
        i = ranged(fresh("i", nonneg=True), poly(n))
        a = poly(v0(idx[0], i)) * poly(vint(idx[1], i))
        return poly(CHAMBERS / nbz) * SUM(i, poly(n), asarr(dkf).get((i,)) * asarr(dos).get((i,)) * a)
    return Arr((P(3), P(3)), comp, "f")


@contract("C12", [CO + "chambers_func", CO + "sigma_epsilon", CO + "velocity_product"])
def zero_temperature(h):
    """from arbitrary surface, orbits, exponents and time grid"""
    band = mkband(h)
    n = fermi_surface(h, band)
    cond = mkcond(h, band)
    N = cond.N_time
    cond.reset_time()
    b = cond.bandObject
    step = 8 * np.max(tau_array(("isotropic",), band._spec, scattering_values(h), b.kf, b.vf)) / N
    h.eq("step in use", cond.dtime, step)
    if cond.Bamp != 0:
        cond.kft, cond.vft = h.arr("kft", 3, n, N), h.arr("vft", 3, n, N)
        cond.t_o_tau = h.arr("tot", n, N)
        cond.chambers_func()
        V_, S_ = asarr(cond.vft), asarr(cond.t_o_tau)

        def vint(c, i):
            j = ranged(fresh("j", nonneg=True), poly(N))
            return Num(SUM(j, poly(N), poly(step) * V_.get((c, i, j)) * poly(np.exp(Num(-S_.get((i, j)))))))
        ref = chambers_ref(h, cond, n, b.dkf, b.dos_k, lambda c, i: Num(V_.get((c, i, ZERO))), vint, band._spec.number_of_bz)
        h.eq("conductivity is the Chambers sum", cond.sigma, ref)
    else:
        cond.kft, cond.vft = h.arr("kft", 3, n, 1), h.arr("vft", 3, n, 1)
        cond.t_o_tau = h.arr("tot", n, pos=True)
        cond.chambers_func()
        V_, S_ = asarr(cond.vft), asarr(cond.t_o_tau)
        ref = chambers_ref(h, cond, n, b.dkf, b.dos_k, lambda c, i: Num(V_.get((c, i, ZERO))),
                           lambda c, i: Num(V_.get((c, i, ZERO))) / Num(S_.get((i,))), band._spec.number_of_bz)
        h.eq("without field the time sum is velocity times lifetime", cond.sigma, ref)
        s = cond.sigma
        for i in range(3):
            for j in range(i):
                h.eq("without field the tensor is symmetric", s[i, j], s[j, i])
        # quadratic form u.sigma.u is a sum of non-negative terms
        u = [h.real("u%d" % q) for q in range(3)]
        quad = sum((u[i] * s[i, j] * u[j] for i in range(3) for j in range(3)), Num(ZERO))
        i = ranged(fresh("i", nonneg=True), poly(n))
        proj = sum((u[q] * Num(V_.get((P(q), i))) if False else u[q] * Num(V_.get((P(q), i, ZERO))) for q in range(3)), Num(ZERO))
        body = poly(proj ** 2) * asarr(b.dkf).get((i,)) * asarr(b.dos_k).get((i,)) * pinv(S_.get((i,)))
        tot = CHAMBERS / band._spec.number_of_bz * Num(SUM(i, poly(n), body))
        h.eq("without field u.sigma.u is a weighted sum of squares", quad, tot)
        w = asarr(b.dkf).get((i,)) * asarr(b.dos_k).get((i,)) * pinv(S_.get((i,)))
        h.nonneg("without field the weights of the squares are not negative", w)
        h.nonneg("the prefactor is positive", poly(CHAMBERS / band._spec.number_of_bz))


@contract("C12", [CO + "runTransport", CO + "solve_movement", CO + "t_o_tau_func", CO + "chambers_func", CO + "reset_time"],
          variants=[dict(models=m, stale=s) for m in (("isotropic",), ("isotropic", "cos2phi")) for s in (False, True)])
def whole_run(h, models, stale):
    """the tensor of a run is the Chambers sum over the band's Fermi points with that run's orbits and exponents"""
    band = mkband(h)
    sp = band._spec
    n = fermi_surface(h, band)
    vals = scattering_values(h)
    cond = mkcond(h, band, models, vals=vals)
    if stale:
        cond.runTransport()
        vals = scattering_values(h, "_new")
        cond.scattering_params = VDict(vals)
        n = fermi_surface(h, cond.bandObject, "_new")
        cond.Bamp = h.real("B_new")
        cond.N_time = h.nat("Nt_new", 2)
    b = cond.bandObject
    cond.runTransport()
    N = cond.N_time
    longest = np.max(tau_array(models, sp, vals, b.kf, b.vf))
    step = 8 * longest / N
    nbz = sp.number_of_bz
    if cond.Bamp != 0:
        V_ = asarr(cond.vft)
        tau = tau_array(models, sp, vals, cond.kft, cond.vft)

        def vint(c, i):
            j = ranged(fresh("j", nonneg=True), poly(N))
            q = ranged(fresh("q", nonneg=True), j)
            expo = poly(step) * SUM(q, j, pinv(tau.get((i, q + 1))))
            return Num(SUM(j, poly(N), poly(step) * V_.get((c, i, j)) * poly(np.exp(Num(-expo)))))
        ref = chambers_ref(h, cond, n, b.dkf, b.dos_k, lambda c, i: Num(V_.get((c, i, ZERO))), vint, nbz)
        h.eq("conductivity of the run", cond.sigma, ref)
    else:
        vf, tau = asarr(b.vf), tau_array(models, sp, vals, b.kf, b.vf)
        ref = chambers_ref(h, cond, n, b.dkf, b.dos_k, lambda c, i: Num(vf.get((c, i))),
                           lambda c, i: Num(vf.get((c, i))) * Num(tau.get((i,))), nbz)
        h.eq("conductivity of the run without field", cond.sigma, ref)
