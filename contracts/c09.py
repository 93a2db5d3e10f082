from common import *

CO = "conductivity.Conductivity."
RATE = QE * PS * ANG / HBAR          # T m/s -> 1/(A ps)


def rate_of_change(sp, b, k):
    """-(e/hbar) v(k) x B for time running backwards, in reciprocal angstroms per picosecond: components and velocity"""
    v = [poly_num(sp.v(q, *k)) for q in range(3)]
    # charge -e in time -t: hbar dk/dt = e v x B
    cr = [v[1] * b[2] - v[2] * b[1], v[2] * b[0] - v[0] * b[2], v[0] * b[1] - v[1] * b[0]]
    return [RATE * x for x in cr], v


def poly_num(x):
    return Num(poly(x))


def flat(h, name, n):
    """a flattened (3, n) array of wavevectors"""
    return h.arr(name, 3, n).flatten()


@contract("C09", [CO + "movement_equation", CO + "crossProductVectorized", "bandstructure.BandStructure.velocity_func"],
          variants=[dict(zero=z, setter=s) for z in ((), ("kz",), ("kx", "ky")) for s in (False, True)])
def equation_of_motion(h, zero, setter):
    band = mkband(h, zero=zero)
    sp = band._spec
    B = [h.real("Bamp"), h.real("Btheta"), h.real("Bphi")]
    cond = mkcond(h, band, B=B)
    if setter:
        B = [h.real("B2"), h.real("th2"), h.real("ph2")]
        cond.Btheta, cond.Bphi, cond.Bamp = B[1], B[2], B[0]
    n = h.nat("n", 1)
    K = h.arr("K", 3, n)
    d = asarr(cond.movement_equation(K.flatten(), h.real("time")))
    h.check("flat vector of rates", d.ndim == 1, repr(d.shape_))
    h.eq("one rate per component", Num(dsize(d.shape_[0])), 3 * n)
    b = field_ref(*B)
    i = ranged(fresh("i", nonneg=True), poly(n))
    k = [Num(K.get((P(q), i))) for q in range(3)]
    want, v = rate_of_change(sp, b, k)
    dk = [Num(d.get((pos(d.shape_[0], q, i, poly(n)),))) for q in range(3)]
    for q in range(3):
        h.eq("hbar dk/dt = e v x B, component %s" % "xyz"[q], dk[q], want[q])
    h.eq("perpendicular to the velocity (energy conserved)", dk[0] * v[0] + dk[1] * v[1] + dk[2] * v[2], 0)
    h.eq("perpendicular to the field (momentum along it conserved)", dk[0] * b[0] + dk[1] * b[1] + dk[2] * b[2], 0)


def pos(d, c, i, n):
    return (P(c), i) if isinstance(d, FlatDim) else P(c) * n + i


def orbit_ref(h, sp, b, k0, t):
    """solution at time t of the equation of motion from k0"""
    xs = [fresh("x", integer=False) for _ in range(3)]
    rhs, _ = rate_of_change(sp, b, [Num(x) for x in xs])
    lams = [LAM(xs, [T.REALDOM] * 3, poly(r)) for r in rhs]
    return [Num(FN("flow", P(c), *lams, *[poly(x) for x in k0], poly(t))) for c in range(3)]


@contract("C09", [CO + "solve_movement", CO + "movement_equation", CO + "reset_time", CO + "time_grid"],
          variants=[dict(zero=z, setter=s, stale=st) for z in ((), ("kz",)) for s in (False, True) for st in (False, True)],
          assumes=["scipy.integrate.odeint returns at each time of its grid the solution of the given equation started "
                   "from the given state (contract; accuracy of the integration is outside)"])
def orbits(h, zero, setter, stale):
    band = mkband(h, zero=zero)
    sp = band._spec
    n = fermi_surface(h, band)
    B = [h.real("Bamp"), h.real("Btheta"), h.real("Bphi")]
    cond = mkcond(h, band, B=B)
    if setter:
        B = [h.real("B2"), h.real("th2"), h.real("ph2")]
        cond.Btheta, cond.Bphi, cond.Bamp = B[1], B[2], B[0]
    if stale:
        m = h.nat("nold", 1)
        cond.kft, cond.vft = h.arr("kft0", 3, m, h.nat("ntold", 1)), h.arr("vft0", 3, m, h.nat("ntold", 1))
    cond.reset_time()
    kf = asarr(cond.bandObject.kf)
    cond.solve_movement()
    if B[0] != 0:
        Nt = poly(cond.N_time)
        h.eq("positions: component, point, time sample", shape_arr(cond.kft), shape_num(3, n, cond.N_time))
        h.eq("velocities: component, point, time sample", shape_arr(cond.vft), shape_num(3, n, cond.N_time))
        b = field_ref(*B)
        ta = asarr(cond.time_array)

        def want(idx):
            k0 = [Num(kf.get((P(q), idx[1]))) for q in range(3)]
            r = orbit_ref(h, sp, b, k0, Num(ta.get((idx[2],))))
            return sym.pick([lambda _, q=q: poly(r[q]) for q in range(3)], idx[0], ())
        ref = Arr((P(3), poly(n), Nt), want, "f")
        h.eq("orbit of each point is its own solution on the time grid", cond.kft, ref)
        kt = asarr(cond.kft)
        h.eq("orbits start at the Fermi points", Arr((P(3), poly(n)), lambda idx: kt.get((idx[0], idx[1], ZERO)), "f"), kf)

        def vel(idx):
            k = [Num(kt.get((P(q), idx[1], idx[2]))) for q in range(3)]
            return sym.pick([lambda _, q=q: poly(poly_num(sp.v(q, *k))) for q in range(3)], idx[0], ())
        h.eq("velocity evaluated at the same position and time", cond.vft, Arr((P(3), poly(n), Nt), vel, "f"))
    else:
        h.eq("a single sample (positions)", shape_arr(cond.kft), shape_num(3, n, 1))
        h.eq("a single sample (velocities)", shape_arr(cond.vft), shape_num(3, n, 1))
        vf = asarr(cond.bandObject.vf)
        h.eq("without field the sample is the Fermi point", cond.kft, Arr((P(3), poly(n), P(1)), lambda i: kf.get((i[0], i[1])), "f"))
        h.eq("without field the velocity is the stored one", cond.vft, Arr((P(3), poly(n), P(1)), lambda i: vf.get((i[0], i[1])), "f"))


def shape_arr(a):
    return [Num(dsize(d)) for d in asarr(a).shape_]


def shape_num(*ds):
    return [Num(poly(d)) for d in ds]
