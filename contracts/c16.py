from common import *
from c15 import bands, angles, abstract_cond_class, any_sweep
import re
import sym

AD = "admr.ADMR."


def totals_ok(h, name, admr, conds):
    tot = Num(ZERO)
    for c in conds:
        tot = tot + c.bandObject.n
    h.eq(name + ": total filling is the sum over the bands", admr.total_filling, tot)
    h.eq(name + ": total hole doping is one minus it", admr.total_hole_doping, 1 - tot)


@contract("C16", [AD + "runADMR", AD + "update_total_doping"], variants=[dict(K=k, hist=x) for k in (1, 2, 3) for x in
          ("run", "run run", "run fill run", "run run fill run", "run reset run")], bounded="up to three bands and three sweeps (totals_of_any_number_of_bands: any number, from any state)")
def totals(h, K, hist):
    conds, B = bands(h, K)
    admr = h.mod("admr").ADMR(VList(conds), show_progress=False, Btheta_norm=h.real("norm"))
    angles(h, admr)
    for q, op in enumerate(hist.split()):
        if op == "run":
            admr.runADMR()
            totals_ok(h, "sweep %d" % q, admr, conds)
        elif op == "fill":
            for l, c in enumerate(conds):
                c.bandObject.n = h.real("nf%d_%d" % (l, q))
                c.bandObject.p = 1 - c.bandObject.n
        else:
            admr.total_filling, admr.total_hole_doping = h.real("oldn"), h.real("oldp")


@contract("C16", [AD + "runADMR", AD + "update_total_doping"], variants=[dict(again=a) for a in (False, True)])
def totals_of_any_number_of_bands(h, again):
    admr, nb, store, amp, nphi, nth = any_sweep(h, False)
    if again:
        store["n"][:] = h.arr("n_later", nb)              # the bands were counted again
        admr.update_total_doping()
    tot = np.sum(store["n"])
    h.eq("total filling is the sum over the bands", admr.total_filling, tot)
    h.eq("total hole doping is one minus it", admr.total_hole_doping, 1 - tot)


def tokens(s):
    """(text before, value) of every number formatted into a string"""
    out, pos = [], 0
    for m in re.finditer("\u27e6\\d+\u27e7", s):
        out.append((s[pos:m.start()], sym._tokrev[m.group(0)][2]))
        pos = m.end()
    return out


def exported(h, K, params, phis, folder=None, filename=None):
    conds, B = [], []
    C = abstract_cond_class(h)
    T = h.real("T", nonneg=True)
    for l in range(K):
        band = mkband(h, params=params, tag="_%d" % l)
        set_res(h, band)
        band.n = h.real("n%d" % l)
        B.append(h.real("Bamp%d" % l))
        conds.append(C(bandObject=band, Bamp=B[-1], T=0, scattering_models=VList(["isotropic"]),
                       scattering_params=VDict({"gamma_0": h.real("g", pos=True)})))
    admr = h.mod("admr").ADMR(VList(conds), show_progress=False, Bphi_array=VList(phis), Btheta_norm=h.real("norm"))
    nth = h.nat("nth", 1)
    admr.Btheta_array = h.arr("theta", nth)
    admr.rhozz_array = h.arr("rho", len(phis), nth)
    admr.rzz_array = h.arr("rzz", len(phis), nth)
    admr.total_filling, admr.total_hole_doping = h.real("ntot"), h.real("ptot")
    CTX.notes.clear()
    kw = {}
    if folder is not None:
        kw["folder"] = folder
    if filename is not None:
        kw["filename"] = filename
    admr.fileADMR(**kw)
    notes = [n for n in CTX.notes if n[0] == "savetxt"]
    return admr, conds, notes, nth


def close_to(h, name, got, want, decimals):
    """the value itself or its rounding to the stated decimals"""
    if prover.zero(poly(got) - poly(want)):
        h.eq(name, got, want)
    else:
        h.eq(name, got, np.round(want, decimals))


@contract("C16", [AD + "fileADMR", AD + "file_name_func"],
          variants=[dict(K=k, params=p, phis=f) for k in (1, 2) for p in (("mu", "t", "tp"), ("mu", "tp"), ("M", "mu", "t", "tz"))
                    for f in ((0,), (0, 15, 30))], bounded="listed band parameters and azimuths; any number of polar angles")
def table(h, K, params, phis):
    admr, conds, notes, nth = exported(h, K, params, phis)
    if len(notes) != 1:
        return h.undecided("one table written", "%d tables recognised" % len(notes))
    _, fname, data, args, kw = notes[0]
    sp = conds[0].bandObject._spec
    header = kw.get("header", "")
    labels = header.split("\t")
    while labels and labels[-1].strip() == "":
        labels.pop()
    delim = kw.get("delimiter", args[1] if len(args) > 1 else " ")
    h.eq("one row per polar angle", Num(dsize(data.shape_[0])), nth)
    nc = dsize(data.shape_[1]).const
    h.check("one column per header label", nc is not None and int(nc) == len(labels), "%s columns, labels %s" % (nc, labels))
    if nc is None or int(nc) != len(labels):
        return
    i = ranged(fresh("i", nonneg=True), poly(nth))
    col = lambda q: Num(data.get((i, P(q))))
    order, seen = [], set()
    rho = asarr(admr.rhozz_array)
    h.check("first label is the angle", labels[0].lower().startswith("theta"), labels[0])
    h.eq("angle column", col(0), Num(asarr(admr.Btheta_array).get((i,))))
    for q, phi in enumerate(phis):
        lab = labels[1 + q]
        h.check("label of azimuth %s" % phi, re.search(r"phi\s*=\s*%s(\.0*)?\D" % phi, lab) is not None and "zz" in lab, lab)
        h.eq("resistivity column of azimuth %s" % phi, col(1 + q), Num(rho.get((P(q), i))))
    k = 1 + len(phis)
    h.check("field label", labels[k].startswith("B"), labels[k])
    h.eq("field column", col(k), conds[0].Bamp)
    h.check("energy scale label", labels[k + 1].startswith("t"), labels[k + 1])
    close_to(h, "energy scale column", col(k + 1), sp.energy_scale, 0)
    k += 2
    while k < len(labels) and labels[k].strip() in sp.params:
        close_to(h, "column of band parameter " + labels[k].strip(), col(k), sp.vals[labels[k].strip()], 3)
        seen.add(labels[k].strip())
        k += 1
    h.check("every band parameter exported", set(sp.params) - {"t"} <= seen, "labels %s" % labels)
    rest = [x.strip() for x in labels[k:]]
    h.check("grid resolution exported last", rest == ["res_x", "res_y", "res_z"], str(rest))
    if rest == ["res_x", "res_y", "res_z"]:
        for q in range(3):
            h.eq("resolution column " + "xyz"[q], col(k + q), conds[0].bandObject.resolution[q])


def carries(toks, key, value):
    return any(t.endswith(key) and prover.zero(p - poly(value)) for t, p in toks)


@contract("C16", [AD + "file_name_func", AD + "fileADMR"],
          variants=[dict(K=k, params=p, folder=f) for k in (1, 2) for p in (("mu", "t", "tp"), ("M", "mu", "tz")) for f in (None, "some/folder")],
          bounded="listed band parameters")
def default_name(h, K, params, folder):
    admr, conds, notes, nth = exported(h, K, params, (0, 15), folder=folder)
    if len(notes) != 1:
        return h.undecided("one table written", "%d tables recognised" % len(notes))
    name = str(notes[0][1])
    sp = conds[0].bandObject._spec
    toks = tokens(name)
    h.check("total hole doping in the name", carries(toks, "p", admr.total_hole_doping), name)
    h.check("field amplitude in the name", carries(toks, "B", conds[0].Bamp), name)
    h.check("energy scale in the name", carries(toks, "t", sp.energy_scale), name)
    for p in sp.params:
        if p != "t":
            h.check("parameter %s in the name" % p, carries(toks, p, sp.vals[p]), name)
    for c in conds:
        h.check("band %s in the name" % c.bandObject.band_name, c.bandObject.band_name in name, name)
    if folder:
        h.check("in the folder asked for", name.startswith(folder + "/"), name)
