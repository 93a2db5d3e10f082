from common import *
from c10 import any_models, any_models_class, kind_is, model_rate

CO = "conductivity.Conductivity."


@contract("C20", [CO + "omegac_tau_func", "scattering.Scattering.tau_tot_func"],
          variants=[dict(models=m, hist=x) for m in (("isotropic",), ("cos2phi", "isotropic"), ("isotropic", "gamma_dos_func"), MODELS5)
                    for x in ("", "field", "scattering", "surface", "run")], bounded="lists of up to five models (any_number_of_models: any number, from any state)")
def omegac_tau(h, models, hist):
    band = mkband(h)
    sp = band._spec
    fermi_surface(h, band)
    band.dks = h.arr("dks", h.nat("nk", 1))
    vals = scattering_values(h)
    B = h.real("Bamp", pos=True)
    cond = mkcond(h, band, models, vals=vals, B=(B, h.real("th"), h.real("ph")))
    if hist:
        cond.omegac_tau_func()
    if hist == "field":
        B = h.real("Bnew", pos=True)
        cond.Bamp = B
    elif hist == "scattering":
        vals = scattering_values(h, "_new")
        cond.scattering_params = VDict(vals)
    elif hist == "surface":
        fermi_surface(h, cond.bandObject, "_new")
        cond.bandObject.dks = h.arr("dks_new", h.nat("nk_new", 1))
    elif hist == "run":
        cond.runTransport()
    b = cond.bandObject
    cond.omegac_tau_func()
    dosmax = np.max(b.dos_k)
    tau = tau_array(models, sp, vals, b.kf, b.vf, dosmax)

    def right(kx, ky, vx, vy, t):
        return QE * B * np.sqrt(vx ** 2 + vy ** 2) * (t * PS) / (HBAR * np.sqrt(kx ** 2 + ky ** 2) / ANG)
    k, v = rows(b.kf), rows(b.vf)
    want = elementwise(right, k[0], k[1], v[0], v[1], tau)
    # recorded finding: the lifetime divides instead of multiplying (value of the tests: 21.929)
    inverted = elementwise(lambda kx, ky, vx, vy, t: right(kx, ky, vx, vy, t) / t ** 2, k[0], k[1], v[0], v[1], tau)
    h.eq_known("omega_c tau of every Fermi point", cond.omegac_tau_k, want, "omegac-lifetime-inverted", inverted)


@contract("C20", [CO + "omegac_tau_func", "scattering.Scattering.tau_tot_func"])
def any_number_of_models(h):
    """any models, each a function of what it declares, and anything left behind by earlier calls"""
    band = mkband(h)
    n = fermi_surface(h, band)
    band.dks = h.arr("dks", n)
    m, models = any_models(h)
    B = h.real("Bamp", pos=True)
    cond = any_models_class(h)(bandObject=band, Bamp=B, Btheta=h.real("th"), Bphi=h.real("ph"), scattering_models=models,
                               scattering_params=VDict(scattering_values(h)), N_time=h.nat("Nt", 2))
    cond.gamma_tot, cond.omegac_tau_k = h.arr("gamma_before", h.nat("kb", 1)), h.arr("omegac_tau_before", h.nat("kc", 1))
    cond.omegac_tau_func()
    i = ranged(fresh("m", nonneg=True), poly(m))

    def rate(*x):
        r = ITE(kind_is(i, 2), model_rate(2, i, Num(ZERO)), ITE(kind_is(i, 1), model_rate(1, i, *x[3:]), model_rate(0, i, *x[:3])))
        return Num(SUM(i, poly(m), r))

    def right(kx, ky, kz, vx, vy, vz):
        return QE * B * np.sqrt(vx ** 2 + vy ** 2) * (PS / rate(kx, ky, kz, vx, vy, vz)) / (HBAR * np.sqrt(kx ** 2 + ky ** 2) / ANG)
    k, v = rows(band.kf), rows(band.vf)
    want = elementwise(right, *k, *v)
    # recorded finding: the lifetime divides instead of multiplying
    inverted = elementwise(lambda *x: right(*x) * rate(*x) ** 2, *k, *v)
    h.eq_known("omega_c tau of every Fermi point", cond.omegac_tau_k, want, "omegac-lifetime-inverted", inverted)
