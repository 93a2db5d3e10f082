"""Facts, SMT, equality proofs and numeric refutation over the terms of terms.py."""
import math
import random
import time
from fractions import Fraction as Fr
import z3
from terms import *
import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "eq_normal_form": 0, "eq_denominators": 0, "eq_congruence": 0,
         "eq_cases": 0, "eq_smt": 0, "smt": 0, "structural": 0}


class Facts:
    """a stack of assumed conditions; what is derived from them is kept with them"""

    def __init__(self):
        self.stack = []
        self.kept = []          # caches in force before each condition was added
        self.perm = 0           # facts decided below every mark (loop-invariant branch conditions)
        self.clear()

    def clear(self):
        self.cache = {}
        T.SCACHE[0] = {}

    def insert(self, c):
        """a fact that outlives the scopes opened so far (until the path ends)"""
        self.stack.insert(self.perm, c)
        self.perm += 1
        self.kept = [({}, {}) for _ in self.stack]
        self.clear()

    def push(self, c):
        self.kept.append((self.cache, T.SCACHE[0]))
        self.stack.append(c)
        self.clear()

    def mark(self):
        return len(self.stack) - self.perm

    def reset(self, n):
        n += self.perm
        if len(self.stack) != n:
            self.cache, T.SCACHE[0] = self.kept[n]
            del self.stack[n:]
            del self.kept[n:]

    def end_path(self, n):
        del self.stack[:self.perm]
        self.kept = [({}, {}) for _ in self.stack]
        self.perm = 0
        self.reset(n)
        self.clear()


FACTS = Facts()


# ------------------------------------------------------------------------------------------ z3 translation
_zatom = {}


def z_atom(at):
    r = _zatom.get(at.id)
    if r is None:
        nm = "a%d" % at.id
        r = z3.Int(nm) if at.integer else z3.Real(nm)
        _zatom[at.id] = r
    return r


_zpoly = {}
_zfacts = {}


def z_poly(p, used):
    r = _zpoly.get(p)
    if r is None:
        u = set()
        r = _zpoly[p] = (z_poly_(p, u), frozenset(u))
    used.update(r[1])
    return r[0]


def z_poly_(p, used):
    terms = []
    for m, c in p.t.items():
        acc = []
        for ai, e in m:
            at = T._atom_list[ai]
            used.add(at)
            z = z_atom(at)
            if at.integer and not p.integer:
                z = z3.ToReal(z)
            if e.denominator == 1 and 0 < e <= 6:
                for _ in range(int(e)):
                    acc.append(z)
            else:
                # other powers: opaque positive-aware constant
                k = (ai, e)
                nm = "a%d_e%s" % (ai, str(e).replace("-", "m").replace("/", "d"))
                w = z3.Real(nm)
                used.add(k)
                acc.append(w)
        x = z3.IntVal(int(c)) if (p.integer) else z3.RealVal(str(c))
        for y in acc:
            x = x * y
        terms.append(x)
    if not terms:
        return z3.IntVal(0) if p.integer else z3.RealVal(0)
    r = terms[0]
    for y in terms[1:]:
        r = r + y
    return r


def z_cond(c, used):
    if c.k == "const":
        return z3.BoolVal(c.a[0])
    if c.k == "lit":
        op, p = c.a
        z = z_poly(p, used)
        return {"lt": z < 0, "le": z <= 0, "eq": z == 0}[op]
    if c.k == "not":
        return z3.Not(z_cond(c.a[0], used))
    xs = [z_cond(x, used) for x in c.a]
    return z3.And(*xs) if c.k == "and" else z3.Or(*xs)


def atom_facts(at):
    """facts known about an atom by declaration"""
    key = at if isinstance(at, tuple) else (at.id, VARRANGE.get(at.id))
    r = _zfacts.get(key)
    if r is None:
        r = _zfacts[key] = atom_facts_(at)
    return r


def atom_facts_(at):
    out = []
    if isinstance(at, tuple):
        ai, e = at
        a = T._atom_list[ai]
        nm = "a%d_e%s" % (ai, str(e).replace("-", "m").replace("/", "d"))
        w = z3.Real(nm)
        z = z_atom(a)
        if a.integer:
            z = z3.ToReal(z)
        if a.pos:
            out.append(w > 0)
        elif nonneg_atom(a, e):
            out.append(w >= 0)
        if e == -1:
            out.append(w * z == 1)
        elif e == Fr(1, 2):
            out.append(w * w == z)
            out.append(w >= 0)
        elif e == Fr(-1, 2):
            out.append(w * w * z == 1)
            out.append(w > 0)
        elif e == -2:
            out.append(w * z * z == 1)
        return out, [a]
    z = z_atom(at)
    more = []
    if at.pos:
        out.append(z > 0)
    elif at.nonneg or nonneg_atom(at, Fr(1)):
        out.append(z >= 0)
    k = at.kind
    if k == "v":
        hi = VARRANGE.get(at.id)
        if hi is not None:
            u = set()
            out.append(z >= 0)
            hz = z_poly(hi, u)
            out.append(z < hz)
            more.extend(u)
    elif k == "I":
        u = set()
        cz = z_cond(Cond("lit", *at.a), u)
        out.append(z == z3.If(cz, 1, 0))
        more.extend(u)
    elif k == "p":
        u = set()
        pz = z_poly(at.a[0], u)
        out.append((z3.ToReal(z) if at.integer else z) == (z3.ToReal(pz) if at.a[0].integer else pz))
        more.extend(u)
    elif k == "f":
        fn = at.a[0]
        u = set()
        if fn == "floor":
            pz = z_poly(at.a[1], u)
            out.append(z3.ToReal(z) <= pz)
            out.append(pz < z3.ToReal(z) + 1)
        elif fn == "abs":
            pz = z_poly(at.a[1], u)
            out.append(z == z3.If(pz >= 0, pz, -pz))
        elif fn in ("cos", "sin"):
            out.append(z <= 1)
            out.append(z >= -1)
        elif fn == "cosh":
            out.append(z >= 1)
        elif fn == "arccosh":
            pz = z_poly(at.a[1], u)
            out.append(z >= 0)
            out.append(z3.Implies(pz > 1, z > 0))
        else:
            info = T.UF.get(fn, {})
            f = info.get("facts")
            if f is not None:
                for c in f(*at.a[1:]):
                    out.append(z_cond(c, u))
        more.extend(u)
    return out, more


def sat_both(c, timeout):
    """True if the facts imply c, False if they exclude it, else None"""
    t0 = time.time()
    used = set()
    z = z_cond(c, used)
    s = _mk_solver(FACTS.stack, timeout, used)
    r = None
    for x, ans in ((z, False), (z3.Not(z), True)):
        STATS["z3_calls"] += 1
        s.push()
        s.add(x)
        ok = s.check()
        s.pop()
        if ok == z3.unsat:
            r = ans
            break
    STATS["z3_time"] += time.time() - t0
    return r


def _mk_solver(conds, timeout, also=()):
    used = set(also)
    zs = [z_cond(c, used) for c in conds]
    seen = set()
    todo = list(used)
    extra = []
    n = 0
    while todo:
        at = todo.pop()
        if at in seen:
            continue
        seen.add(at)
        n += 1
        if n > 400:
            break
        fs, more = atom_facts(at)
        extra.extend(fs)
        todo.extend(more)
    s = z3.Solver()
    s.set("timeout", timeout)
    for z in extra:
        s.add(z)
    for z in zs:
        s.add(z)
    return s


def relevant(conds, goal_free, limit=60):
    return conds


def sat(conds, timeout=2000, model=False):
    t0 = time.time()
    STATS["z3_calls"] += 1
    s = _mk_solver(conds, timeout)
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    if model:
        return r, (s.model() if r == z3.sat else None)
    return r


def simple_linear(p):
    """only integer/real variables and declared-range atoms in degree 1"""
    for m in p.t:
        if len(m) > 1 or (m and m[0][1] != 1):
            return False
    return True


def holds(c, timeout=1500):
    """True if c follows from the facts (proved), else False"""
    if c.k == "const":
        return c.a[0]
    if c.k == "lit":
        op, p = c.a
        if op == "le" and nonneg_struct(-p):
            STATS["structural"] += 1
            return True
        if op == "lt" and nonneg_struct(-p, strict=True):
            STATS["structural"] += 1
            return True
    key = ("h", repr_cond(c))
    r = FACTS.cache.get(key)
    if r is None:
        r = sat(FACTS.stack + [cnot(c)], timeout) == z3.unsat
        if r:
            STATS["smt"] += 1
        FACTS.cache[key] = r
    return r


def repr_cond(c):
    if c.k == "lit":
        return (c.a[0], c.a[1])
    if c.k == "const":
        return c.a
    return (c.k,) + tuple(repr_cond(x) for x in c.a)


_in_decide = [False]
_dec_cache = {}


def decide_lit(op, p):
    """used by the Iverson constructor: True/False/None"""
    if _in_decide[0]:
        return None
    # cheap filter: only linear integer conditions are decided eagerly, or anything mentioned in facts
    key = ("d", op, p)
    r = FACTS.cache.get(key, 0)
    if r != 0:
        return r
    r = None
    if p.integer or FACTS.stack:
        _in_decide[0] = True
        try:
            c = Cond("lit", op, p)
            lin = simple_linear(p)
            if p.integer and lin or touches_facts(p):
                r = sat_both(c, 300)
        finally:
            _in_decide[0] = False
    FACTS.cache[key] = r
    return r


def touches_facts(p):
    fr = p.free
    for c in FACTS.stack:
        if not cond_free(c).isdisjoint(fr):
            return True
    return False


T._decide[0] = decide_lit


# ------------------------------------------------------------------------------------------ equality
CLEAR_LIMIT = 20000


def clear_denominators(p):
    """multiply by powers of the polynomial atoms / atoms with negative exponents"""
    for _ in range(6):
        neg = {}
        for m in p.t:
            for ai, e in m:
                at = T._atom_list[ai]
                if e < 0 and at.kind == "p":
                    k = -math.floor(e) if e.denominator != 1 else -e
                    if neg.get(ai, 0) < k:
                        neg[ai] = Fr(k)
        if not neg:
            return p
        # clear innermost last: pick one at a time, the one that does not occur inside others
        ai = max(neg, key=lambda x: T._atom_list[x].lvl * 0 + x)
        k = neg[ai]
        base = T._atom_list[ai].a[0]
        acc = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(ai, Fr(0)) + k
            q = T._poly({tuple(sorted(d.items())): c})
            if e:
                fl = math.floor(e)
                q = q * ppow(base, fl) if fl else q
                fr = e - fl
                if fr:
                    q = q * T._poly({((ai, fr),): Fr(1)})
            for m2, c2 in q.t.items():
                c2 = c2 + acc.get(m2, 0)
                if c2:
                    acc[m2] = c2
                else:
                    acc.pop(m2, None)
            if len(acc) > CLEAR_LIMIT or (_zdeadline[0] and time.time() > _zdeadline[0]):
                return p        # given up: equality then stays undecided here
        r = T._poly(acc)
        p = r
    return p


def atoms_in(p, top=True):
    s = set()
    for m in p.t:
        for ai, e in m:
            s.add(T._atom_list[ai])
    return s


def replace_atom(p, at, q):
    r = ZERO
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(at.id, None)
        x = T._poly({tuple(sorted(d.items())): c})
        if e is not None:
            x = x * ppow(q, e)
        r = r + x
    return r


def unify(p, depth):
    """congruence: replace atoms provably equal to another atom of p"""
    ats = sorted((a for a in atoms_in(p) if a.kind in "fSp"), key=lambda a: a.id)
    for i, a in enumerate(ats):
        for b in ats[:i]:
            if a.kind != b.kind:
                continue
            if same_atom(a, b, depth - 1):
                return replace_atom(p, a, P(b)), True
    return p, False


def same_atom(a, b, depth):
    if a is b:
        return True
    if depth < 0 or a.kind != b.kind:
        return False
    if a.kind == "f":
        if a.a[0] != b.a[0] or len(a.a) != len(b.a):
            return False
        return all(same_arg(x, y, depth) for x, y in zip(a.a[1:], b.a[1:]))
    if a.kind == "p":
        return zero(a.a[0] - b.a[0], depth, False)
    if a.kind == "S":
        if len(a.a[0]) != len(b.a[0]):
            return False
        vs, hs, body = open_sum(a)
        vs2, hs2, body2 = open_sum(b)
        mp = {atom_of(w).id: v for v, w in zip(vs, vs2)}
        if not all(zero(h - subst(g, mp), depth, False) for h, g in zip(hs, hs2)):
            return False
        n = FACTS.mark()
        try:
            for v, h in zip(vs, hs):
                FACTS.push(cand(lit("le", -v), lit("lt", v - h)))
            return zero(body - subst(body2, mp), depth, False)
        finally:
            FACTS.reset(n)
    return False


def same_arg(x, y, depth):
    if x is y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return zero(x - y, depth, False)
    if isinstance(x, Lam) and isinstance(y, Lam):
        if x.n != y.n:
            return False
        vs, hs, body = x.open()
        if any((h is REALDOM) != (g is REALDOM) for h, g in zip(x.his, y.his)):
            return False
        body2 = y(*vs)
        vs2, hs2, _ = y.open()
        if not all(h is g or zero(h - g, depth, False) for h, g in zip(hs, hs2)):
            return False
        n = FACTS.mark()
        try:
            for v, h in zip(vs, hs):
                if h is not REALDOM:
                    FACTS.push(cand(lit("le", -v), lit("lt", v - h)))
            return zero(body - body2, depth, False)
        finally:
            FACTS.reset(n)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_arg(p, q, depth) for p, q in zip(x, y))
    return x == y


def renorm(p):
    """re-normalise p so that Iverson brackets are re-decided under the current facts"""
    r = ZERO
    changed = False
    for m, c in p.t.items():
        acc = P(c)
        for ai, e in m:
            at = T._atom_list[ai]
            if at.kind == "I":
                q = IV(*at.a)
                if q is not P(at):
                    changed = True
                acc = acc * q
            else:
                q = renorm_atom(at)
                if q is None:
                    acc = acc * T._atompow(at, e)
                else:
                    changed = True
                    acc = acc * ppow(q, e)
        r = r + acc
    return r


def renorm_atom(at):
    """re-evaluate arguments containing brackets; None if unchanged"""
    if at.kind == "f":
        args = []
        ch = False
        for x in at.a[1:]:
            if isinstance(x, Poly):
                y = renorm(x)
                ch = ch or y is not x
                args.append(y)
            else:
                args.append(x)
        if ch:
            return FN(at.a[0], *args)
    elif at.kind == "p":
        y = renorm(at.a[0])
        if y is not at.a[0]:
            return y
    elif at.kind == "S":
        vs, hs, body = open_sum(at)
        hs2 = [renorm(h) for h in hs]
        b2 = renorm(body)
        if b2 is not body or any(x is not y for x, y in zip(hs, hs2)):
            r = b2
            for v, h in reversed(list(zip(vs, hs2))):
                r = SUM(v, h, r)
            return r
        # empty range?
        for h in hs:
            if h.const is None and holds(lit("le", h), 300):
                return ZERO
    return None


def iversons(p):
    s = {}
    for m in p.t:
        for ai, e in m:
            if T._atom_list[ai].kind == "I":
                s[ai] = s.get(ai, 0) + 1
    return sorted(s, key=lambda k: -s[k])


def deep_iverson(p, depth=4):
    """some Iverson atom anywhere in p whose condition has no bound variable"""
    for m in p.t:
        for ai, e in m:
            at = T._atom_list[ai]
            r = _deep_at(at, depth)
            if r is not None:
                return r
    return None


def _has_bound(p):
    return any(T._atom_list[i].kind == "b" for i in p.free)


def _deep_at(at, depth):
    if at.kind == "I":
        return None if _has_bound(at.a[1]) else at
    if depth == 0:
        return None
    if at.kind == "p":
        return deep_iverson(at.a[0], depth - 1)
    if at.kind == "S":
        for h in at.a[0]:
            r = deep_iverson(h, depth - 1)
            if r is not None:
                return r
        return deep_iverson(at.a[1], depth - 1)
    if at.kind == "f":
        for x in at.a[1:]:
            r = None
            if isinstance(x, Poly):
                r = deep_iverson(x, depth - 1)
            elif isinstance(x, Lam):
                r = deep_iverson(x.body, depth - 1)
            if r is not None:
                return r
    return None


def solve_eq(p):
    """p == 0 solved for a variable: (atom id, Poly) or None"""
    for m, c in p.key:
        if len(m) == 1 and m[0][1] == 1:
            at = T._atom_list[m[0][0]]
            if at.kind == "v":
                rest = p - T._poly({m: c})
                if at.id not in rest.free:
                    if at.integer and not (rest / (-c)).integer:
                        continue
                    return at.id, rest / (-c)
    return None


_zdeadline = [None]


def pinned(p):
    """(variable id, value) when the facts leave an integer variable bounded by +-v + constant a single value"""
    vs = [(m, c) for m, c in p.t.items() if m]
    if len(vs) != 1 or len(vs[0][0]) != 1 or abs(vs[0][1]) != 1:
        return None
    ai, e = vs[0][0][0]
    at = T._atom_list[ai]
    if e != 1 or at.kind != "v" or not at.integer:
        return None
    k0 = -p.t.get((), Fr(0)) * vs[0][1]
    x = T._poly({((ai, Fr(1)),): Fr(1)})
    for k in (k0, k0 + 1, k0 - 1):
        if k.denominator == 1 and holds(lit("eq", x - k), 300):
            return at.id, P(k)
    return None


def offset_of(x, vid):
    """smallest constant added to the variable in all its occurrences (0 if it occurs otherwise)"""
    best = [None]

    def rec(y):
        if isinstance(y, Poly):
            if vid not in y.free:
                return
            ks = set()
            for m, c in y.t.items():
                if vid not in T._poly({m: c}).free:
                    continue
                mine = [(ai, e) for ai, e in m if T._atom_list[ai].id == vid]
                rest = tuple((ai, e) for ai, e in m if T._atom_list[ai].id != vid)
                if len(mine) != 1 or mine[0][1] != 1 or any(vid in T._atom_list[ai].free for ai, e in rest):
                    ks = None
                    break
                ks.add(y.t.get(rest, Fr(0)) / c)
            if ks and len(ks) == 1:
                k = math.floor(ks.pop())
                best[0] = k if best[0] is None else min(best[0], k)
                return
            for m, c in y.t.items():
                for ai, e in m:
                    at = T._atom_list[ai]
                    if vid not in at.free:
                        continue
                    if at.id == vid:
                        best[0] = 0 if best[0] is None else min(best[0], 0)
                    else:
                        for z in at.a:
                            rec(z)
        elif isinstance(y, T.Lam):
            rec(y.body)
            for z in y.his:
                rec(z)
        elif isinstance(y, (tuple, list)):
            for z in y:
                rec(z)
    rec(x)
    return best[0] or 0


def shift_sums(p):
    """sum_{v<n} f(v+k) = sum_{v<n} f(v) + f(n) .. - f(0) .. for positive shifts k"""
    r = ZERO
    changed = False
    for m, c in p.t.items():
        acc = P(c)
        for ai, e in m:
            at = T._atom_list[ai]
            if at.kind == "S" and e == 1:
                vs, hs, body = open_sum(at)
                done = False
                for q in range(len(vs)):
                    va = atom_of(vs[q])
                    if any(va.id in h.free for h in hs) or any(atom_of(w).id in hs[q].free for w in vs):
                        continue
                    k = offset_of(body, va.id)
                    if 0 < k <= 3 and T.known_nonneg(hs[q]):
                        b = subst(body, {va.id: vs[q] - k})
                        new = SUM(vs[q], hs[q], b)
                        for z in range(int(k)):
                            new = new + subst(b, {va.id: hs[q] + z}) - subst(b, {va.id: P(z)})
                        for z in reversed(range(len(vs))):
                            if z != q:
                                new = SUM(vs[z], hs[z], new)
                        acc = acc * new
                        done = True
                        break
                if done:
                    changed = True
                    continue
            acc = acc * T._atompow(at, e)
        r = r + acc
    return r if changed else None


def deep_shift(p, depth=5, memo=None):
    """shift_sums in p and in everything below it; None if nothing changed"""
    memo = {} if memo is None else memo
    new = {}
    for m, c in p.t.items():
        for ai, e in m:
            if ai not in new:
                k = (ai, depth)
                if k not in memo:
                    memo[k] = _deep_shift_atom(T._atom_list[ai], depth, memo)
                if memo[k] is not None:
                    new[ai] = memo[k]
    if not new:
        return shift_sums(p) if any(T._atom_list[ai].kind == "S" for m in p.t for ai, e in m) else None
    r = ZERO
    for m, c in p.t.items():
        acc = P(c)
        for ai, e in m:
            acc = acc * (ppow(new[ai], e) if ai in new else T._atompow(T._atom_list[ai], e))
        r = r + acc
    q = shift_sums(r)
    return r if q is None else q


def _deep_shift_atom(at, depth, memo):
    if depth == 0:
        return None
    if at.kind == "f":
        args, ch = [], False
        for x in at.a[1:]:
            y = deep_shift(x, depth - 1, memo) if isinstance(x, Poly) else None
            ch = ch or y is not None
            args.append(x if y is None else y)
        return FN(at.a[0], *args) if ch else None
    if at.kind == "p":
        return deep_shift(at.a[0], depth - 1, memo)
    if at.kind == "S":
        vs, hs, body = open_sum(at)
        b = deep_shift(body, depth - 1, memo)
        if b is not None:
            for v, h in reversed(list(zip(vs, hs))):
                b = SUM(v, h, b)
            return b
    return None


def zero(p, depth=4, top=True):
    if not p.t:
        if top:
            STATS["eq_normal_form"] += 1
        return True
    if p.const is not None:
        return False
    if _zdeadline[0] and time.time() > _zdeadline[0]:
        return False
    q = clear_denominators(p)
    if not q.t:
        if top:
            STATS["eq_denominators"] += 1
        return True
    if depth > 0:
        q2 = deep_shift(q) if top else shift_sums(q)
        if q2 is not None:
            q2 = clear_denominators(q2)
            if not q2.t:
                if top:
                    STATS["eq_shift"] = STATS.get("eq_shift", 0) + 1
                return True
            q = q2
        for _ in range(12):
            q2, ch = unify(q, depth)
            if not ch:
                break
            q = clear_denominators(q2)
            if not q.t:
                if top:
                    STATS["eq_congruence"] += 1
                return True
        iv = iversons(q)
        at = T._atom_list[iv[0]] if iv else deep_iverson(q)
        if at is not None:
            ok = True
            c = Cond("lit", *at.a)
            for cc, val in ((c, ONE), (cnot(c), ZERO)):
                n = FACTS.mark()
                FACTS.push(cc)
                try:
                    if sat(FACTS.stack, 500) == z3.unsat:
                        continue
                    r = q
                    if cc is c and at.a[0] == "eq":
                        s = solve_eq(at.a[1])
                        if s is not None:
                            r = subst(r, {s[0]: s[1]})
                    s = pinned(at.a[1]) if at.a[0] != "eq" else None
                    if s is not None:
                        r = subst(r, {s[0]: s[1]})
                    r = subst(r, {at.id: val}) if at.id in r.free else r
                    r = renorm(replace_atom(r, at, val))
                    if not zero(r, depth - 1, False):
                        ok = False
                        break
                finally:
                    FACTS.reset(n)
            if ok:
                if top:
                    STATS["eq_cases"] += 1
                return True
    if top and len(q.t) <= 40:
        if sat(FACTS.stack + [cnot(lit("eq", q))], 1500) == z3.unsat:
            STATS["eq_smt"] += 1
            return True
    if top:
        import engine
        if "inv3" in engine.mentions(q):
            r = expand_inv(q)
            if r is not None:
                return zero(r, depth, True)
    return False


def expand_inv(q):
    """definition of the 3x3 inverse, when the entries are small enough to write it out"""
    import engine
    import sym

    class Big(Exception):
        pass

    def f(i, j, *fl):
        if any(len(x.t) > 2 for x in fl):
            raise Big()
        return sym.inv_entry(i, j, *fl)
    try:
        return engine.replace_fn(q, {"inv3": f})
    except Big:
        return None


# ------------------------------------------------------------------------------------------ numeric evaluation
class Env:
    """values of variables and functions at one sample. Some samples have values of very different sizes: every function
    and variable in a unit of its own, or values close to zero now and then"""

    def __init__(self, seed, over=None):
        self.seed = seed
        self.units = isinstance(seed, int) and seed % 10 == 6
        self.close = isinstance(seed, int) and seed % 10 == 8
        self.rnd = random.Random(seed)
        self.vals = {}
        self.over = over or {}
        self.memo = {}

    def unit(self, name):
        r = random.Random("%s/unit/%s" % (self.seed, name))
        return 10.0 ** r.choice([0, r.randrange(-5, 4)])

    def var(self, at):
        v = self.vals.get(at.id)
        if v is None:
            name = at.a[0]
            if name == "pi":
                v = math.pi
            elif name in self.over:
                v = self.over[name]
            else:
                r = random.Random("%s/%s" % (self.seed, name))
                hi = VARRANGE.get(at.id)
                if hi is not None:
                    n = int(round(ev(hi, self, {})))
                    if n <= 0:
                        raise Reject()
                    v = r.randrange(n)
                elif at.integer:
                    v = r.choice([1, 2, 2, 3, 3, 4]) if at.pos else (r.choice([0, 1, 2, 3]) if at.nonneg else r.choice([-2, -1, 0, 1, 2, 3]))
                elif at.pos:
                    v = r.choice([1.0, 1.0, 3.0]) * math.exp(r.uniform(-1, 1))
                    if self.units:
                        v *= 10.0 ** r.choice([0, 0, r.randrange(-3, 4)])
                else:
                    v = r.uniform(-2, 2)
                    if self.units:
                        v *= 10.0 ** r.choice([0, 0, r.randrange(-3, 4)])
                    elif self.close and r.random() < 0.2:
                        v *= 10.0 ** -r.uniform(5, 9.5)
            self.vals[at.id] = v
        return v


class Reject(Exception):
    pass


NUM = {}


def num(name):
    def d(f):
        NUM[name] = f
        return f
    return d


def _h(seed, name, args):
    return random.Random("%s|%s|%r" % (seed, name, args))


def ev(p, env, bnd):
    k = None
    if p.lvl == 0 or not bnd or p.free.isdisjoint(bnd):
        k = p
        r = env.memo.get(k)
        if r is not None:
            return r
    tot = 0.0
    mag = 0.0
    isint = p.integer
    if isint:
        tot = 0
    for m, c in p.t.items():
        x = int(c) if isint else float(c)
        for ai, e in m:
            v = ev_atom(T._atom_list[ai], env, bnd)
            if e == 1:
                x = x * v
            else:
                try:
                    if e.denominator == 1:
                        x = x * (v ** int(e) if isint else float(v) ** int(e))
                    else:
                        if v < 0:
                            if v > -1e-9:
                                v = 0.0
                            else:
                                raise Reject()
                        x = x * float(v) ** float(e)
                except (ZeroDivisionError, OverflowError):
                    raise Reject()
            if x == 0 and len(m) > 1:
                break
        tot = tot + x
        mag += abs(x)
    if isinstance(tot, float) and abs(tot) < CANCEL[0] * mag:
        tot = 0.0               # exact cancellation up to rounding
    if isinstance(tot, float) and (tot != tot or abs(tot) > 1e200):
        raise Reject()
    if k is not None:
        env.memo[k] = tot
    return tot


def ev_atom(at, env, bnd):
    k = at.kind
    if k == "v":
        if at.id in bnd:
            return bnd[at.id]
        return env.var(at)
    if k == "b":
        return bnd[at.id]
    if k == "I":
        v = ev(at.a[1], env, bnd)
        op = at.a[0]
        return 1 if (v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0) else 0
    if k == "p":
        return ev(at.a[0], env, bnd)
    if k == "S":
        his, body = at.a
        n = len(his)
        ids = [atom_of(B(at.lvl - q)).id for q in range(n)]

        def rec(q, b):
            if q == n:
                return ev(body, env, b)
            h = int(round(ev(his[q], env, b)))
            if h > 60:
                raise Reject()
            t = 0
            mag = 0.0
            for i in range(h):
                b2 = dict(b)
                b2[ids[q]] = i
                x = rec(q + 1, b2)
                t = t + x
                mag += abs(x)
            if isinstance(t, float) and abs(t) < CANCEL[0] * mag:
                t = 0.0
            return t
        return rec(0, dict(bnd))
    fn = at.a[0]
    f = NUM.get(fn)
    if f is not None:
        return f(env, bnd, *at.a[1:])
    args = tuple(ev_arg(x, env, bnd) for x in at.a[1:])
    info = T.UF.get(fn, {})
    g = info.get("num")
    if g is not None:
        return g(env, *args)
    r = _h(env.seed, fn, rnd_args(args))
    if at.integer:
        lo, hi = info.get("range", lambda *a: (0, 4))(*args)
        if hi <= lo:
            raise Reject()
        return r.randrange(lo, hi)
    v = math.exp(r.uniform(-1, 1)) if at.pos else r.uniform(-2, 2)
    if env.units:
        v *= env.unit(fn)
    elif env.close and r.random() < 0.35:
        v *= 10.0 ** -r.uniform(5, 9.5)
    return v


CANCEL = [1e-11]
DIGITS = ["%.9g"]


def rnd_args(a):
    if isinstance(a, float):
        if a == 0:
            return 0.0
        return float(DIGITS[0] % a)
    if isinstance(a, tuple):
        return tuple(rnd_args(x) for x in a)
    if isinstance(a, int):
        return float(a)
    return a


def ev_arg(x, env, bnd):
    if isinstance(x, Poly):
        v = ev(x, env, bnd)
        return int(v) if x.integer else v
    if isinstance(x, Lam):
        return table(x, env, bnd)
    if isinstance(x, tuple):
        return tuple(ev_arg(y, env, bnd) for y in x)
    return x


def table(lam, env, bnd):
    """nested tuple of values (real-domain lambdas are sampled at fixed points)"""
    ids = [atom_of(B(lam.lvl - q, lam.his[q] is not REALDOM)).id for q in range(lam.n)]

    def rec(q, b):
        if q == lam.n:
            return ev(lam.body, env, b)
        h = lam.his[q]
        if h is REALDOM:
            pts = [0.3, -1.1]
        else:
            n = int(round(ev(h, env, b)))
            if n > 60:
                raise Reject()
            pts = range(n)
        out = []
        for i in pts:
            b2 = dict(b)
            b2[ids[q]] = i
            out.append(rec(q + 1, b2))
        return tuple(out)
    return rec(0, dict(bnd))


def _u(fn, f):
    def g(env, bnd, x):
        try:
            return f(float(ev(x, env, bnd)))
        except (ValueError, OverflowError):
            raise Reject()
    NUM[fn] = g


for _n, _f in (("cos", math.cos), ("sin", math.sin), ("exp", math.exp), ("abs", abs), ("cosh", math.cosh),
               ("sinh", math.sinh), ("arccosh", math.acosh), ("tan", math.tan), ("arctan", math.atan),
               ("tanh", math.tanh), ("log", math.log), ("arcsin", math.asin), ("arccos", math.acos)):
    _u(_n, _f)


@num("floor")
def _(env, bnd, x):
    v = ev(x, env, bnd)
    r = round(v)
    if abs(v - r) < 1e-9:
        return int(r)
    return math.floor(v)


@num("round")
def _(env, bnd, x, n):
    return round(float(ev(x, env, bnd)), int(ev(n, env, bnd)))


@num("arctan2")
def _(env, bnd, y, x):
    return math.atan2(float(ev(y, env, bnd)), float(ev(x, env, bnd)))


@num("pow")
def _(env, bnd, x, e):
    a, b = float(ev(x, env, bnd)), float(ev(e, env, bnd))
    try:
        r = a ** b
    except (ZeroDivisionError, OverflowError):
        raise Reject()
    if isinstance(r, complex):
        raise Reject()
    return r


@num("ipow")
def _(env, bnd, x, n):
    return float(ev(x, env, bnd)) ** n


@num("div0")
def _(env, bnd, x):
    raise Reject()


def flat(t):
    if isinstance(t, tuple):
        r = []
        for x in t:
            r += flat(x)
        return r
    return [t]


@num("maxr")
def _(env, bnd, lam):
    v = flat(table(lam, env, bnd))
    if not v:
        raise Reject()
    return max(v)


@num("minr")
def _(env, bnd, lam):
    v = flat(table(lam, env, bnd))
    if not v:
        raise Reject()
    return min(v)


@num("interp")
def _(env, bnd, x, xp, fp):
    import numpy as np
    a = table(xp, env, bnd)
    b = table(fp, env, bnd)
    if not a:
        raise Reject()
    return float(np.interp(float(ev(x, env, bnd)), np.array(a, float), np.array(b, float)))


@num("flow")
def _(env, bnd, c, fx, fy, fz, x, y, z, dt):
    k, t = int(ev(c, env, bnd)), ev(dt, env, bnd)
    start = tuple(float(ev(q, env, bnd)) for q in (x, y, z))
    if t == 0:
        return start[k]
    r = _h(env.seed, "flow", rnd_args((k, table(fx, env, bnd), table(fy, env, bnd), table(fz, env, bnd), start, float(t))))
    return r.uniform(-2, 2)


@num("inv3")
def _(env, bnd, i, j, *fl):
    import numpy as np
    m = np.array([float(ev(x, env, bnd)) for x in fl]).reshape(3, 3)
    if abs(np.linalg.det(m)) < 1e-9 * np.abs(m).max() ** 3:
        raise Reject()
    return float(np.linalg.inv(m)[int(ev(i, env, bnd)), int(ev(j, env, bnd))])


@num("argsort")
def _(env, bnd, lam, i):
    t = table(lam, env, bnd)
    k = int(ev(i, env, bnd))
    o = sorted(range(len(t)), key=lambda q: (t[q], q))
    if not 0 <= k < len(o):
        raise Reject()
    return o[k]


declare("argsort", integer=True)


def ev_cond(c, env):
    if c.k == "const":
        return c.a[0]
    if c.k == "lit":
        v = ev(c.a[1], env, {})
        op = c.a[0]
        return v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0
    if c.k == "not":
        return not ev_cond(c.a[0], env)
    if c.k == "and":
        return all(ev_cond(x, env) for x in c.a)
    return any(ev_cond(x, env) for x in c.a)


def plain_overrides(facts, seed):
    """a z3 model of the facts restricted to plain variables, to satisfy path conditions numerically"""
    rel = [c for c in facts]
    if not rel:
        return {}
    s = _mk_solver(rel, 1500)
    s.set("random_seed", seed % 1000)
    # diversify: prefer random values for real variables (soft)
    if s.check() != z3.sat:
        return {}
    rnd = random.Random(seed)
    fr = set()
    for c in rel:
        fr |= cond_free(c)
    ats = [T._atom_list[i] for i in sorted(fr) if T._atom_list[i].kind == "v" and i in _zatom]
    rnd.shuffle(ats)
    for at in ats[:40]:
        s.push()
        z = z_atom(at)
        if at.integer:
            s.add(z == rnd.choice([0, 1, 2, 3, 4]))
        else:
            s.add(z == z3.RealVal(str(Fr(rnd.randrange(-300, 500), 100))))
        if s.check() == z3.sat:
            continue       # keep
        s.pop()
    if s.check() != z3.sat:
        return {}
    m = s.model()
    out = {}
    for at in ats:
        v = m.eval(z_atom(at), model_completion=True)
        try:
            if at.integer:
                out[at.a[0]] = v.as_long()
            elif z3.is_rational_value(v):
                out[at.a[0]] = float(Fr(v.numerator_as_long(), v.denominator_as_long()))
            else:
                out[at.a[0]] = float(v.approx(20).as_fraction())
        except Exception:
            pass
    return out


def _value(p, facts, seed, over):
    """value of p (and the size of its terms) at a sample where the facts hold; None if they do not"""
    env = Env(seed, over)
    if not all(ev_cond(c, env) for c in facts):
        return None
    v = ev(p, env, {})
    mag = sum(abs(ev(T._poly({m: c}), env, {})) for m, c in p.t.items())
    return v, mag, env


def _differs(v, mag):
    return abs(v) > 1e-7 * mag and mag > 0


def free_trial(p, facts):
    """the name of a trial value of the root finder (which may be any number) on which p depends linearly and nothing
    else does: then p is not zero for all of them"""
    for m in p.t:
        if len(m) == 1 and m[0][1] == 1:
            at = T._atom_list[m[0][0]]
            if at.kind == "v" and at.a[0].startswith("trial~"):
                if at.id not in (p - P(p.t[m]) * P(at)).free and all(at.id not in cond_free(c) for c in facts):
                    return at.a[0]
    return None


def exponents(p, out=None, seen=None):
    """names of the real variables that are exponents of powers in p"""
    out, seen = set() if out is None else out, set() if seen is None else seen
    for m in p.t:
        for ai, e in m:
            if ai in seen:
                continue
            seen.add(ai)
            at = T._atom_list[ai]
            xs = at.a if isinstance(at.a, tuple) else (at.a,)
            if at.kind == "f" and at.a[0] == "pow":
                for q in at.a[2].t:
                    for bi, f in q:
                        b = T._atom_list[bi]
                        if b.kind == "v" and not b.integer:
                            out.add(b.a[0])
            for x in xs:
                if isinstance(x, Poly):
                    exponents(x, out, seen)
    return out


def refute_eq(p, tries=60, facts=None, budget=20.0):
    """search values with facts true and p != 0: returns (env description) or None.
    second result: number of samples where the facts held. Uninterpreted functions are hashed from their rounded
    arguments, so a difference has to survive a change of the rounding."""
    facts = FACTS.stack if facts is None else facts
    t = free_trial(p, facts)
    if t is not None:
        return {t: "any value"}, 1
    t0 = time.time()
    good = 0
    exps = exponents(p)
    for s in range(tries):
        if time.time() - t0 > budget:
            break
        over = plain_overrides(facts, s) if (facts and s % 2 == 1 or (facts and good == 0 and s > 5)) else {}
        if exps and s % 3 == 2:
            rnd = random.Random(s)
            over = dict({n: float(rnd.choice([1, 2, 3, 3, 5])) for n in exps}, **over)
        try:
            r = _value(p, facts, s, over)
            if r is None:
                continue
            good += 1
            if not _differs(r[0], r[1]):
                continue
            env = r[2]
            ok = True
            for d in ("%.8g", "%.7g"):
                DIGITS[0] = d
                try:
                    r = _value(p, facts, s, over)
                finally:
                    DIGITS[0] = "%.9g"
                if r is None or not _differs(r[0], r[1]):
                    ok = False
            if ok and (env.units or env.close):       # not an effect of rounding
                for d in (1e-9, 1e-14):
                    CANCEL[0] = d
                    try:
                        q = _value(p, facts, s, over)
                    finally:
                        CANCEL[0] = 1e-11
                    if q is None or not _differs(q[0], q[1]) or abs(q[0] - r[0]) > 1e-6 * abs(r[0]):
                        ok = False
            if not ok:
                continue
        except Reject:
            continue
        except (ZeroDivisionError, OverflowError, ValueError, RecursionError):
            continue
        return {T._atom_list[i].a[0]: x for i, x in env.vals.items()}, good
    return None, good


def refute_cond(c, tries=80, facts=None, budget=20.0):
    facts = FACTS.stack if facts is None else facts
    t0 = time.time()
    good = 0
    for s in range(tries):
        if time.time() - t0 > budget:
            break
        over = plain_overrides(facts, s) if (facts and s % 2 == 1) else {}
        env = Env(s, over)
        try:
            if not all(ev_cond(x, env) for x in facts):
                continue
            ok = ev_cond(c, env)
        except Reject:
            continue
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        good += 1
        if not ok and (env.units or env.close):
            for d in (1e-9, 1e-14):
                CANCEL[0] = d
                try:
                    e2 = Env(s, over)
                    ok = ok or not all(ev_cond(x, e2) for x in facts) or ev_cond(c, e2)
                except (Reject, ZeroDivisionError, OverflowError, ValueError):
                    ok = True
                finally:
                    CANCEL[0] = 1e-11
        if not ok:
            return {T._atom_list[i].a[0]: x for i, x in env.vals.items()}, good
    return None, good
