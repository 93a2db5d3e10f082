from common import *

CO = "conductivity.Conductivity."
SETTERS = ("Bamp", "Btheta", "Bphi")


def field_ok(h, name, cond, B, th, ph):
    want = field_ref(B, th, ph)
    v = cond.B_vector
    for q in range(3):
        h.eq("%s: component %s" % (name, "xyz"[q]), v[q], want[q])
    h.eq("%s: three components" % name, Num(dsize(asarr(v).shape_[0])), 3)
    h.eq("%s: squared length is the squared amplitude" % name, v[0] ** 2 + v[1] ** 2 + v[2] ** 2, B ** 2)
    h.eq("%s: amplitude reads back" % name, cond.Bamp, B)
    h.eq("%s: polar angle reads back" % name, cond.Btheta, th)
    h.eq("%s: azimuth reads back" % name, cond.Bphi, ph)


@contract("C08", [CO + "__init__", CO + "B_func"])
def construction(h):
    B = [h.real(s) for s in SETTERS]
    field_ok(h, "constructed", mkcond(h, mkband(h), B=B), *B)
    C = h.mod("conductivity").Conductivity
    c = C(mkband(h, tag="2"), B[0], scattering_models=VList(["isotropic"]), scattering_params=VDict(gamma_0=h.real("g", pos=True)))
    field_ok(h, "default angles", c, B[0], Num(ZERO), Num(ZERO))


SEQS = [(a,) for a in SETTERS] + [(a, b) for a in SETTERS for b in SETTERS] + \
       [(a, b, c) for a in SETTERS for b in SETTERS for c in SETTERS]


@contract("C08", [CO + "_set_Bamp", CO + "_set_Btheta", CO + "_set_Bphi", CO + "B_func"],
          variants=[dict(seq=s) for s in SEQS])
def histories(h, seq):
    """one setter from an arbitrary state satisfying the invariant restores it (length 1: the induction step); longer
    sequences guard against state the invariant does not mention"""
    B = {s: h.real(s) for s in SETTERS}
    cond = mkcond(h, mkband(h), B=[B[s] for s in SETTERS])
    for n, s in enumerate(seq):
        B[s] = h.real("%s_%d" % (s, n))
        setattr(cond, s, B[s])
        field_ok(h, "after " + " ".join(seq[:n + 1]), cond, *[B[s] for s in SETTERS])


@contract("C08", [CO + "_set_Bamp", CO + "_set_Btheta", CO + "_set_Bphi"], variants=[dict(seq=s) for s in SEQS[:3]])
def setter_is_construction(h, seq):
    """induction: after a setter the whole object is the one the constructor builds for the new values"""
    B = {s: h.real(s) for s in SETTERS}
    cond = mkcond(h, mkband(h), B=[B[s] for s in SETTERS])
    s = seq[0]
    B[s] = h.real("new")
    setattr(cond, s, B[s])
    fresh_ = mkcond(h, cond.bandObject, B=[B[s] for s in SETTERS])
    d1, d2 = cond.__dict__, fresh_.__dict__
    if set(d1) != set(d2):
        return h.undecided("same attributes", "attributes differ: %r" % (set(d1) ^ set(d2)))
    h.soft = True       # more than the property asks: not proving it only weakens the induction
    for k in d1:
        if isnum(d1[k]) or isinstance(d1[k], Arr):
            if k in ("kft", "vft", "tau_tot", "t_o_tau", "v_product", "sigma", "alpha", "beta", "gamma_tot"):
                continue        # np.empty, not initialised
            h.eq("attribute equals the constructor's", d1[k], d2[k])


@contract("C08", [CO + "_set_B_vector"], variants=[dict(after=a) for a in ("construction", "setter")])
def assigning_the_vector(h, after):
    B = [h.real(s) for s in SETTERS]
    cond = mkcond(h, mkband(h), B=B)
    if after == "setter":
        B[0] = h.real("B2")
        cond.Bamp = B[0]
    before = dict(cond.__dict__)
    vec = cond.B_vector
    terms = [poly(vec[q]) for q in range(3)]
    cond.B_vector = h.arr("mine", 3)
    now = dict(cond.__dict__)
    h.check("no attribute added or removed", set(before) == set(now))
    for k in before:
        h.check("attributes unchanged", now.get(k) is before[k], "attribute %s changed" % k)
    for q in range(3):
        h.eq("vector unchanged", cond.B_vector[q], Num(terms[q]))
    field_ok(h, "after assigning the vector", cond, *B)
