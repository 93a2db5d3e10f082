from common import *

BS = "bandstructure.BandStructure."


@contract("C01", [BS + "__init__", BS + "energy_velocity_definition", BS + "bandParameters", BS + "energy_func",
                  BS + "velocity_func"],
          variants=[dict(params=p, order=o, zero=z, const=c, parallel=par)
                    for p, o in [(("mu", "t"), ("t", "mu")), (("mu", "t", "tp", "tz"), ("tz", "t", "tp", "mu")),
                                 (("Z", "mu", "a1", "t", "B1"), ("mu", "t", "B1", "Z", "a1")),
                                 (("E", "I", "mu"), ("mu", "I", "E")), (("S", "beta", "mu"), ("mu", "beta", "S"))]
                    for z, c in [((), ()), (("kz",), ()), (("kx", "ky"), ()), ((), ("ky",)), (("kz",), ("kx",))] for par in (True, False) if par or (z, c) == ((), ())],
          bounded="numbers (2 to 5) and names of band parameters, and which components vanish or are constant are enumerated; everything else is symbolic")
def energy_and_velocity(h, params, order, zero, const, parallel):
    band = mkband(h, params=params, order=order, zero=zero, const=const, parallel=parallel)
    sp = band._spec
    n, m = h.nat("n", 1), h.nat("m", 1)
    for what, k in (("1-d", [h.arr("K%s" % x, n) for x in "xyz"]), ("2-d", [h.arr("KK%s" % x, n, m) for x in "xyz"]),
                    ("scalar", [h.real("k%s" % x) for x in "xyz"])):
        E = band.energy_func(*k)
        h.eq("energy is the dispersion at the current values (%s)" % what, E, sp.E(*k))
        v = band.velocity_func(*k)
        for i in range(3):
            h.eq("velocity %s (%s)" % ("xyz"[i], what), v[i], sp.v(i, *k))


@contract("C01", [BS + "bandParameters", BS + "__setitem__", BS + "set_band_param", BS + "_set_energy_scale",
                  BS + "_set_band_params"])
def follows_changes(h):
    params = ("mu", "t", "tp")
    band = mkband(h, params=params)
    sp = band._spec
    k = [h.arr("K%s" % x, h.nat("n", 1)) for x in "xyz"]

    def both(tag):
        h.eq("energy " + tag, band.energy_func(*k), sp.E(*k))
        v = band.velocity_func(*k)
        for i in range(3):
            h.eq("velocity " + tag, v[i], sp.v(i, *k))
    band["mu"] = h.real("mu2"); sp.vals["mu"] = h.real("mu2")
    both("after item assignment")
    band.set_band_param("tp", h.real("tp2")); sp.vals["tp"] = h.real("tp2")
    both("after set_band_param")
    band.energy_scale = h.real("es2"); sp.energy_scale = h.real("es2")
    both("after energy_scale")
    sp.vals = {p: h.real(p + "3") for p in params}
    band.band_params = VDict({p: sp.vals[p] for p in ("tp", "mu", "t")})
    both("after replacing the set")
    band.a, band.b, band.c = (h.real(x + "2", pos=True) for x in "abc")
    sp.a, sp.b, sp.c = (h.real(x + "2", pos=True) for x in "abc")
    both("after lattice change")
    band["mu"] = 0; sp.vals["mu"] = Num(ZERO)
    both("after setting zero")
    band["new"] = h.real("new")
    both("after setting an undeclared name")


@contract("C01", [BS + "energy_velocity_definition"])
def two_bands_independent(h):
    b1 = mkband(h, params=("mu", "t"), tag="1")
    b2 = mkband(h, params=("mu", "t", "tz"), tag="2")
    k = [h.arr("K%s" % x, h.nat("n", 1)) for x in "xyz"]
    for b, t in ((b1, "first"), (b2, "second")):
        h.eq("energy of the %s band" % t, b.energy_func(*k), b._spec.E(*k))
        v = b.velocity_func(*k)
        for i in range(3):
            h.eq("velocity of the %s band" % t, v[i], b._spec.v(i, *k))
