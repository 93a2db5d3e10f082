"""Running contracts: one contract = one Python function that sets up a symbolic precondition state, executes the
translated code of /repo and states postconditions; it is executed once per feasible path."""
import os
import sys
import time
import json
import itertools
import traceback
from terms import *
import terms as T
from prover import FACTS, holds, refute_eq, refute_cond, STATS
import prover
from ctx import CTX, explore, Fault, require
import ctx
import sym
from sym import *
import engine
from engine import Program, VList, VDict, SymSeq, Poison
import libs

CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, targets, variants, bounded, assumes):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.variants, self.bounded, self.assumes = variants, bounded, assumes


def contract(prop, targets, variants=({},), bounded=None, assumes=()):
    """register a contract. targets: names of the functions under contract (module.qualname)"""
    def deco(f):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            CONTRACTS.setdefault(p, []).append(
                Contract(p, f.__name__, f, list(targets), list(variants), bounded, list(assumes)))
        return f
    return deco


class Stop(Exception):
    pass


class H:
    """handle given to a contract function"""

    def __init__(self, deadline):
        self.prog = Program()
        self.res = {}          # obligation -> list of (status, detail)
        self.deadline = deadline
        self.rename = {}

    # ---- code
    def mod(self, name):
        return self.prog.load("cuprates_transport." + name)

    # ---- symbols
    def real(self, name, pos=False, nonneg=False):
        return Num(V(name, pos=pos, nonneg=nonneg))

    def nat(self, name, lo=0):
        v = V(name, integer=True, pos=lo >= 1, nonneg=True)
        if lo > 1:
            FACTS.push(lit("le", P(lo) - v))
        return Num(v)

    def arr(self, name, *dims, dtype="f", **kw):
        ds = tuple(poly(d) for d in dims)
        if kw:
            declare(name, **kw)
        return Arr(ds, lambda idx: FN(name, *engine.flat_idx(idx)), dtype)

    def assume(self, c):
        c = tocond(c)
        if c.k == "const":
            assert c.a[0]
            return
        FACTS.push(c)

    # ---- obligations
    soft = False

    def record(self, name, status, detail=""):
        if self.soft and status == "failed":
            status = "undecided"
        self.res.setdefault(name, []).append((status, str(detail)[:int(os.environ.get("PV_LONG", "2000"))]))

    def eq(self, name, got, want):
        try:
            self._eq(name, got, want)
        except Unsupported as e:
            self.record(name, "undecided", "unsupported: %s" % e)
        except Fault as e:
            self.record(name, "failed", "shape or index fault while reading the result: %s" % e)

    def eq_known(self, name, got, want, finding, defect):
        """as eq, except that a value proved to be exactly that of a recorded finding is reported as the finding"""
        n0 = len(self.res.get(name, []))
        self.eq(name, got, want)
        if all(s == "proved" for s, d in self.res[name][n0:]):
            return
        probe = H(self.deadline)
        probe.eq("defect", got, defect)
        if probe.res["defect"] and all(s == "proved" for s, d in probe.res["defect"]):
            del self.res[name][n0:]
            self.record(name, "known", finding)
            self.record(name + " (exactly as in the recorded finding)", "proved")

    def _feasible(self):
        if not FACTS.stack:
            return True
        m, good = refute_cond(FALSE, tries=60, budget=5)
        return good > 0 or m is not None

    def _fail(self, name, detail):
        if self._feasible():
            self.record(name, "failed", detail)
        else:
            self.record(name, "undecided", "path not shown feasible: " + detail)

    def _eq(self, name, got, want):
        if got is None or want is None or isinstance(want, (str, bool)):
            if isinstance(got, SBool):
                return self.true(name, got if want is True else not_(got))
            if isinstance(got, Poison) or not (isinstance(got, (str, bool, type(None))) or isnum(got) or isinstance(got, Arr)):
                self.record(name, "undecided", "value of kind %s" % type(got).__name__)
                return
            if got == want and type(got) is type(want):
                self.record(name, "proved")
            else:
                self._fail(name, "got %r, expected %r" % (got, want))
            return
        if isinstance(got, (list, tuple)) and not isinstance(want, Arr) and isinstance(want, (list, tuple)):
            if getattr(got, "segs", None) is not None or getattr(got, "poison", None):
                self.record(name, "undecided", "list of symbolic length")
                return
            if len(got) != len(want):
                return self._fail(name, "length %d, expected %d" % (len(got), len(want)))
            for k, (g, w) in enumerate(zip(got, want)):
                self._eq(name, g, w)
            if not want:
                self.record(name, "proved")
            return
        if isinstance(got, Poison):
            self.record(name, "undecided", "value not determined by the verifier: %s" % object.__getattribute__(got, "why"))
            return
        if not (isnum(got) or isinstance(got, (Arr, SBool, list))):
            if got is None or isinstance(got, str):
                return self._fail(name, "got %r" % (got,))
            self.record(name, "undecided", "value of kind %s" % type(got).__name__)
            return
        if isnum(want) and isnum(got):
            return self.pzero(name, poly(got) - poly(want))
        g, w = asarr(got), asarr(want)
        if g.ndim != w.ndim:
            return self._fail(name, "array of dimension %d, expected %d" % (g.ndim, w.ndim))
        mixed = False
        for k, (d1, d2) in enumerate(zip(g.shape_, w.shape_)):
            if same_dim(d1, d2):
                continue
            if not isinstance(d1, Poly) and dsize(d1).const is not None and isinstance(d2, Poly) and d2.const == dsize(d1).const and d2.const <= 64:
                mixed = True            # a flattened dimension of known size: its positions are listed one by one
                continue
            p = dsize(d1) - dsize(d2)
            if not prover.zero(p):
                m, good = refute_eq(p, budget=8)
                if m is not None:
                    return self._fail(name, "size of dimension %d is %r, expected %r" % (k, dsize(d1), dsize(d2)))
                self.record(name, "undecided", "dimension %r, expected %r" % (d1, d2))
                return
            if type(d1) is not type(d2) or not isinstance(d1, Poly):
                # same size, different structure: compare on the simpler one
                self.record(name, "undecided", "dimension structure %r, expected %r" % (d1, d2))
                return
        gg, wg = snapshot(g), snapshot(w)
        n = 0
        for idx in itertools.product(*[[P(q) for q in range(int(d.const))] if mixed and isinstance(d, Poly) and d.const is not None and d.const <= 64 else dim_generic(d)
                                       for d in w.shape_]):
            n += 1
            m = FACTS.mark()
            self.ranges(idx)
            try:
                self.pzero(name, (poly(g[tuple(Num(x) for x in idx)]) if mixed else gg(idx)) - wg(idx), "at index %s: " % (idx,))
            finally:
                FACTS.reset(m)
        if n == 0:
            self.record(name, "proved")

    def ranges(self, idx):
        """the generic index exists"""
        for x in engine.flat_idx(idx):
            at = atom_of(x)
            if at is not None and at.id in T.VARRANGE:
                FACTS.push(lit("lt", -T.VARRANGE[at.id]))

    def pzero(self, name, p, where=""):
        left = self.deadline - time.time()
        if left < 2:
            self.record(name, "undecided", "time limit")
            return
        prover._zdeadline[0] = time.time() + min(60, left)
        try:
            ok = prover.zero(p)
        finally:
            prover._zdeadline[0] = 0
        if ok:
            self.record(name, "proved")
            return
        m, good = refute_eq(p, budget=min(15, max(2, left)))
        if m is not None:
            self.record(name, "failed", "%sdifference %s with %s" % (where, short(p), {k: v for k, v in sorted(m.items())[:30]}))
        else:
            self.record(name, "undecided", "%sneither proved nor refuted (%d samples): %s" % (where, good, short(p)))

    def true(self, name, c):
        c = tocond(c)
        try:
            if holds(c, 5000):
                self.record(name, "proved")
                STATS["smt"] += 1
                return
            m, good = refute_cond(c, budget=10)
        except Unsupported as e:
            self.record(name, "undecided", "unsupported: %s" % e)
            return
        if m is not None:
            self.record(name, "failed", "%r false with %s" % (c, m))
        else:
            self.record(name, "undecided", "neither proved nor refuted: %r" % (c,))

    def check(self, name, ok, detail=""):
        """an obligation decided structurally by the verifier (heap shape, presence, identity)"""
        if ok:
            STATS["structural"] += 1
            self.record(name, "proved")
        else:
            self._fail(name, detail)

    def undecided(self, name, detail):
        self.record(name, "undecided", detail)

    def nonneg(self, name, p, strict=False):
        """p >= 0 (or > 0)"""
        p = poly(p)
        if (p.nonneg_struct() if hasattr(p, "nonneg_struct") else T.nonneg_struct(p, strict)):
            STATS["structural"] += 1
            return self.record(name, "proved")
        return self.true(name, Num(p) > 0 if strict else Num(p) >= 0)


def short(p):
    s = repr(p)
    n = int(os.environ.get("PV_LONG", "600"))
    return s if len(s) < n else s[:n] + "..."


def run_contract(c, variant, budget):
    """returns dict with the obligations of one contract variant"""
    t0 = time.time()
    FACTS.end_path(0)
    T.VARRANGE.clear() if False else None
    libs.MODELS.clear()
    libs.ZERO_DERIV.clear()
    libs.CONST_DERIV.clear()
    libs.TRIAL.clear()
    engine.LOOPSTATS.update({"summaries": 0, "passes": 0})
    h = None
    res, errors, paths, notes = {}, [], 0, []
    deadline = t0 + budget

    def once():
        hh = H(deadline)
        once.h = hh
        FACTS.end_path(0)
        # facts decided on this path are re-derived by the deterministic replay
        c.fn(hh, **variant)
        return hh
    reached = set()
    try:
        for facts, (kind, val) in explore(once, max_paths=400):
            paths += 1
            hh = once.h
            for name, rs in hh.res.items():
                res.setdefault(name, []).extend(rs)
            if kind == "ok":
                if not reached:
                    # vacuity guard: the precondition and this path's branch conditions have a model
                    FACTS.end_path(0)
                    for f in facts:
                        FACTS.push(f)
                    if not facts or refute_cond(FALSE, tries=60, budget=4)[0] is not None:
                        reached.add(paths)
                    FACTS.end_path(0)
            elif kind == "unsupported":
                errors.append(("undecided", val))
            else:
                FACTS.end_path(0)
                for f in facts:
                    FACTS.push(f)
                feas = True
                if facts and getattr(val, "model", None) is None:
                    m, good = refute_cond(FALSE, tries=80, budget=8)
                    feas = m is not None
                msg = "%s: %s" % (type(val).__name__, val)
                tb = where(val)
                errors.append(("failed" if feas else "undecided", msg + tb))
                FACTS.end_path(0)
            if time.time() > deadline:
                errors.append(("undecided", "time limit"))
                break
    except Unsupported as e:
        errors.append(("undecided", str(e)))
    except Exception as e:
        errors.append(("undecided", "verifier error: %s: %s" % (type(e).__name__, e)))
        if os.environ.get("PV_DEBUG"):
            traceback.print_exc()
    out = {}
    for name, rs in res.items():
        st = [s for s, d in rs]
        if "failed" in st:
            s = "failed"
        elif "undecided" in st:
            s = "undecided"
        elif "known" in st:
            s = "known"
        else:
            s = "proved"
        det = [d for x, d in rs if x == s and d][:3]
        out[name] = {"status": s, "count": len(rs), "detail": det}
    if errors:
        s = "failed" if any(x == "failed" for x, d in errors) else "undecided"
        out["no exception"] = {"status": s, "count": paths, "detail": [d for x, d in errors if x == s][:3]}
    else:
        out["no exception"] = {"status": "proved", "count": paths, "detail": []}
    if reached:
        out["precondition reachable"] = {"status": "proved", "count": 1, "detail": []}
    elif not errors:
        out["precondition reachable"] = {"status": "undecided", "count": 1, "detail": ["no model of the precondition was found"]}
    if len(out) <= 2 and not errors:
        out["vacuity"] = {"status": "undecided", "count": 0, "detail": ["no obligation reached"]}
    return {"contract": c.name, "variant": {k: str(v) for k, v in variant.items()}, "targets": c.targets, "obligations": out,
            "paths": paths, "time": time.time() - t0, "stats": dict(STATS), "loops": dict(engine.LOOPSTATS),
            "bounded": c.bounded, "assumes": c.assumes}


def where(e):
    tb = getattr(e, "__traceback__", None)
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "cuprates_transport" in f:
            last = " (%s:%d in %s)" % (os.path.basename(f), tb.tb_lineno, tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return last
