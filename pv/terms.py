"""Canonical symbolic terms for the deductive verifier.

A Poly is a hash-consed Laurent polynomial with rational coefficients over *atoms*:
  v  free variable (real or integer)
  b  bound variable (level-named, canonical)
  f  application of an interpreted or uninterpreted function (args: Poly | Lam | str | int | tuple)
  p  a polynomial used as base of a negative or fractional power
  S  a finite sum over one or several index variables, each from 0 to hi-1
  I  Iverson bracket of an atomic comparison (value 0 or 1)
Equality of two Poly objects is identity.  All constructors normalise, so proving an equation is normalising
its two sides; prover.py adds denominators, congruence, case splits and SMT on top.
Machine numbers are treated as exact reals/integers (assumption listed in every evidence file).
"""
from fractions import Fraction as Fr
from itertools import permutations
import math


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation is undecided, never failed."""


# ------------------------------------------------------------------------------------------ atoms
_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("id", "kind", "a", "free", "lvl", "integer", "pos", "nonneg")

    def __repr__(self):
        return atom_str(self)


def _mk(kind, a, free, lvl, integer=False, pos=False, nonneg=False):
    key = (kind, a)
    r = _atoms.get(key)
    if r is None:
        r = Atom()
        r.id = len(_atom_list)
        r.kind, r.a, r.free, r.lvl, r.integer, r.pos, r.nonneg = kind, a, free, lvl, integer, pos, nonneg
        if kind in "vb":
            r.free = frozenset((r.id,))
        _atoms[key] = r
        _atom_list.append(r)
    return r


EMPTY = frozenset()


# ------------------------------------------------------------------------------------------ polynomials
_polys = {}


class Poly:
    __slots__ = ("t", "key", "h", "free", "lvl", "_integer")

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return poly_str(self)

    # --- arithmetic
    def __add__(self, o):
        return padd(self, P(o))

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(P(o), Fr(-1)))

    def __rsub__(self, o):
        return padd(P(o), pscale(self, Fr(-1)))

    def __neg__(self):
        return pscale(self, Fr(-1))

    def __mul__(self, o):
        return pmul(self, P(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return pmul(self, pinv(P(o)))

    def __rtruediv__(self, o):
        return pmul(P(o), pinv(self))

    def __pow__(self, o):
        return ppow(self, o)

    @property
    def const(self):
        """Fraction value if constant else None"""
        t = self.t
        if not t:
            return Fr(0)
        if len(t) == 1 and () in t:
            return t[()]
        return None

    @property
    def integer(self):
        if self._integer is None:
            ok = True
            for m, c in self.t.items():
                if c.denominator != 1:
                    ok = False
                    break
                for ai, e in m:
                    if not (_atom_list[ai].integer and e.denominator == 1 and e >= 0):
                        ok = False
                        break
                if not ok:
                    break
            self._integer = ok
        return self._integer


def _poly(t):
    key = tuple(sorted(t.items()))
    r = _polys.get(key)
    if r is None:
        r = Poly()
        r.t, r.key, r.h = t, key, hash(key)
        fr, lv = set(), 0
        for m in t:
            for ai, e in m:
                at = _atom_list[ai]
                fr |= at.free
                if at.lvl > lv:
                    lv = at.lvl
        r.free, r.lvl, r._integer = frozenset(fr), lv, None
        _polys[key] = r
    return r


ZERO = _poly({})
ONE = _poly({(): Fr(1)})


def lift_float(x):
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non finite float literal")
    f = Fr(x).limit_denominator(10 ** 6)
    if f != 0 and float(f) == x:
        return f
    if x == 0:
        return Fr(0)
    return Fr(repr(x))


def P(x):
    if type(x) is Poly:
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return ZERO if x == 0 else _poly({(): Fr(x)})
    if isinstance(x, Fr):
        return ZERO if x == 0 else _poly({(): x})
    if isinstance(x, float):
        return P(lift_float(x))
    if isinstance(x, Atom):
        return _poly({((x.id, Fr(1)),): Fr(1)})
    raise Unsupported("cannot lift %r to a term" % (type(x).__name__,))


def mono_poly(m, c=Fr(1)):
    return _poly({m: c}) if c else ZERO


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m)
        if s is None:
            t[m] = c
        else:
            s = s + c
            if s:
                t[m] = s
            else:
                del t[m]
    return _poly(t)


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return _poly({m: v * c for m, v in a.t.items()})


_mulcache = {}


def _mono_mul(m1, m2):
    """product of two monomials: returns (mono, extra Poly factor or None)"""
    d = dict(m1)
    touched = False
    for ai, e in m2:
        if ai in d:
            touched = True
            s = d[ai] + e
            if s == 0:
                del d[ai]
            else:
                d[ai] = s
        else:
            d[ai] = e
    extra = None
    for ai in list(d):
        at = _atom_list[ai]
        e = d[ai]
        k = at.kind
        if k == "I":
            if e > 0:
                if e != 1:
                    d[ai] = Fr(1)
            else:
                raise Unsupported("negative power of a condition")
        elif k == "p":
            if e >= 1:
                n = math.floor(e)
                r = e - n
                base = at.a[0]
                f = ppow(base, n)
                extra = f if extra is None else pmul(extra, f)
                if r:
                    d[ai] = r
                else:
                    del d[ai]
        elif k == "f" and touched:
            fn = at.a[0]
            if fn == "sin" and e >= 2 and e.denominator == 1:
                n = e // 2
                r = e - 2 * n
                f = ppow(ONE - ppow(FN("cos", at.a[1]), 2), int(n))
                extra = f if extra is None else pmul(extra, f)
                if r:
                    d[ai] = Fr(r)
                else:
                    del d[ai]
            elif fn == "abs" and e.denominator == 1 and (e >= 2 or e <= -2):
                n = int(abs(e) // 2) * 2
                if e < 0:
                    n = -n
                r = e - n
                f = ppow(at.a[1], n)
                extra = f if extra is None else pmul(extra, f)
                if r:
                    d[ai] = r
                else:
                    del d[ai]
    return tuple(sorted(d.items())), extra


_I_cache = {}


def _contradict(m):
    """Cheap unit propagation: a monomial with [p==0]*[q==0]... contradictory brackets is left alone."""
    return False


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if len(a.t) > len(b.t):
        a, b = b, a
    ck = (a, b)
    r = _mulcache.get(ck)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > 60000:
        raise Unsupported("term blow-up")
    t = {}
    extras = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, ex = _mono_mul(m1, m2) if (m1 and m2) else ((m1 or m2), None)
            c = c1 * c2
            if ex is not None:
                extras.append((m, c, ex))
                continue
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                s += c
                if s:
                    t[m] = s
                else:
                    del t[m]
    r = _poly(t)
    for m, c, ex in extras:
        r = padd(r, pmul(_poly({m: c}), ex))
    _mulcache[ck] = r
    return r


def content(p):
    """(c, mono, q) with p == c*mono*q, q primitive with positive leading coefficient"""
    items = p.key
    num = 0
    den = 1
    for m, c in items:
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = Fr(num, den)
    if items[-1][1] < 0:
        g = -g
    common = None
    for m, c in items:
        d = dict(m)
        if common is None:
            common = d
        else:
            for ai in list(common):
                e = d.get(ai, Fr(0))
                if e == 0 and common[ai] > 0:
                    del common[ai]
                elif e == 0:
                    pass
                else:
                    common[ai] = min(common[ai], e)
            for ai, e in d.items():
                if ai not in common and e < 0:
                    common[ai] = e
    # negative exponents must be the min including monomials without the atom (0)
    for ai in list(common):
        mn = min(dict(m).get(ai, Fr(0)) for m, c in items)
        if mn == 0:
            del common[ai]
        else:
            common[ai] = mn
    for ai in list(common):
        if _atom_list[ai].kind == "I" :
            if common[ai] < 0:
                raise Unsupported("negative power of a condition")
    mono = tuple(sorted(common.items()))
    if mono:
        inv = {ai: -e for ai, e in mono}
        t = {}
        for m, c in items:
            d = dict(m)
            for ai, e in inv.items():
                s = d.get(ai, Fr(0)) + e
                if s:
                    d[ai] = s
                elif ai in d:
                    del d[ai]
            t[tuple(sorted(d.items()))] = c / g
        q = _poly(t)
    else:
        q = pscale(p, 1 / g)
    return g, mono, q


def top_iverson(p):
    """an Iverson atom occurring at the top level of p (not inside other atoms), or None"""
    best = None
    for m in p.t:
        for ai, e in m:
            if _atom_list[ai].kind == "I" and (best is None or ai < best):
                best = ai
    return best


def split_iverson(p, ai):
    """p == [c]*A + (1-[c])*B  -> (A, B)"""
    A, B = {}, {}
    for m, c in p.t.items():
        if any(x == ai for x, e in m):
            m2 = tuple(x for x in m if x[0] != ai)
            A[m2] = A.get(m2, Fr(0)) + c
        else:
            A[m] = A.get(m, Fr(0)) + c
            B[m] = B.get(m, Fr(0)) + c
    A = {m: c for m, c in A.items() if c}
    return _poly(A), _poly(B)


def by_cases(p, f):
    """apply f to p, distributing over top-level Iverson brackets"""
    ai = top_iverson(p)
    if ai is None:
        return f(p)
    A, B = split_iverson(p, ai)
    I = P(_atom_list[ai])
    a = by_cases(A, f)
    b = by_cases(B, f)
    if a is b:
        return a
    return I * a + (ONE - I) * b


DIV0 = None


def pinv(p):
    return by_cases(p, _pinv)


def _pinv(p):
    if not p.t:
        return FN("div0", ONE)
    return _ppow_num(p, Fr(-1))


def _powfr(c, e):
    """rational c>0 to rational e, as Poly"""
    if c == 1:
        return ONE
    n = e.denominator
    k = e.numerator
    if n == 1:
        return P(c ** int(k))

    def root(x):
        r = round(x ** (1.0 / n)) if x < 2 ** 1000 else None
        if r is not None:
            for d in (-1, 0, 1):
                if (r + d) >= 0 and (r + d) ** n == x:
                    return r + d
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is not None and b is not None:
        return P(Fr(a, b) ** k)
    at = _mk("p", (P(c),), EMPTY, 0, False, True, True)
    fl = math.floor(e)
    r = e - fl
    return mono_poly(((at.id, r),), Fr(c) ** fl)


def ppow(p, e):
    if isinstance(e, Poly):
        c = e.const
        if c is None:
            # x**y, symbolic exponent
            return by_cases(p, lambda q: _powsym(q, e))
        e = c
    if isinstance(e, float):
        e = lift_float(e)
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if e.denominator == 1 and e > 0:
        if len(p.t) <= 1:
            return _ppow_num(p, e)
        n = int(e)
        if top_iverson(p) is not None:
            return by_cases(p, lambda q: ppow_int(q, n))
        return ppow_int(p, n)
    return by_cases(p, lambda q: FN("div0", ONE) if (not q.t and e < 0) else _ppow_num(q, e))


def ppow_int(p, n):
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        return _ppow_num(p, Fr(n))
    if len(p.t) ** n > 20000 or n > 12:
        # keep opaque
        c, mono, q = content(p)
        at = _mk("f", ("ipow", q, n), q.free, q.lvl)
        return pmul(pmul(P(c ** n), _monopow(mono, Fr(n))), P(at))
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def _powsym(q, e):
    c = q.const
    if c is not None and c == 1:
        return ONE
    return FN("pow", q, e)


def _monopow(mono, e):
    r = ONE
    for ai, x in mono:
        r = pmul(r, _atompow(_atom_list[ai], x * e))
    return r


def _atompow(at, e):
    """at ** e (e Fraction) as Poly"""
    k = at.kind
    if k == "I":
        if e > 0:
            return P(at)
        raise Unsupported("negative power of a condition")
    if k == "p" or (k == "f" and at.a[0] in ("sin", "abs")):
        # reuse multiplication normalisation
        if e.denominator == 1 and e > 0:
            if k == "p":
                return ppow(at.a[0], e)
            if e >= 2:
                m, ex = _mono_mul(((at.id, e - 1),), ((at.id, Fr(1)),))
                r = _poly({m: Fr(1)})
                return r if ex is None else pmul(r, ex)
        if k == "f" and at.a[0] == "abs" and e.denominator == 1 and e <= -2:
            m, ex = _mono_mul(((at.id, e + 1),), ((at.id, Fr(-1)),))
            r = _poly({m: Fr(1)})
            return r if ex is None else pmul(r, ex)
        return _poly({((at.id, e),): Fr(1)})
    return _poly({((at.id, e),): Fr(1)})


def is_pos_atom(at):
    return at.pos


def _ppow_num(p, e):
    """p ** e, e nonzero Fraction, p without top-level Iverson unless monomial positive power"""
    if not p.t:
        return ZERO if e > 0 else FN("div0", ONE)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if e.denominator == 1:
            return pmul(P(c ** int(e)), _monopow(m, e))
        # fractional power of a monomial
        if c < 0:
            at = _mk("p", (p,), p.free, p.lvl)
            return _poly({((at.id, e),): Fr(1)})
        r = _powfr(c, e)
        rest = []
        for ai, x in m:
            at = _atom_list[ai]
            if at.kind == "I":
                r = pmul(r, P(at))
            elif at.pos or at.nonneg or (at.kind == "p" and x.denominator != 1):
                r = pmul(r, _atompow(at, x * e))
            elif x.denominator == 1 and x % 2 == 0:
                ab = FN("abs", P(at))
                r = pmul(r, ppow(ab, x * e))
            else:
                rest.append((ai, x))
        if rest:
            q = _poly({tuple(rest): Fr(1)})
            at = _mk("p", (q,), q.free, q.lvl, False, False, True)
            r = pmul(r, _poly({((at.id, e),): Fr(1)}))
        return r
    c, mono, q = content(p)
    if e.denominator == 1:
        at = _mk("p", (q,), q.free, q.lvl, False, nonneg_struct(q, strict=True), nonneg_struct(q))
        return pmul(pmul(P(c ** int(e)), _monopow(mono, e)), _poly({((at.id, e),): Fr(1)}))
    # fractional: only pull out what is certainly nonnegative
    r = ONE
    keep = {}
    for ai, x in mono:
        at = _atom_list[ai]
        if at.pos or at.nonneg:
            r = pmul(r, _atompow(at, x * e))
        elif x.denominator == 1 and x % 2 == 0:
            r = pmul(r, ppow(FN("abs", P(at)), x * e))
        else:
            keep[ai] = x
    q = pmul(q, _poly({tuple(sorted(keep.items())): Fr(1)})) if keep else q
    if c < 0:
        q = -q
        c = -c
    r = pmul(r, _powfr(c, e))
    if len(q.t) == 1 and not keep:
        return pmul(r, _ppow_num(q, e))
    at = _mk("p", (q,), q.free, q.lvl, False, nonneg_struct(q, strict=True), True)
    return pmul(r, _poly({((at.id, e),): Fr(1)}))


# ------------------------------------------------------------------------------------------ sign structure
_nncache = {}


def nonneg_atom(at, e):
    if at.pos or at.nonneg:
        return True
    if e.denominator == 1 and e % 2 == 0:
        return True
    if at.kind == "I":
        return True
    if at.kind == "p" and e.denominator != 1:
        return True
    if at.kind == "S":
        return nonneg_struct(at.a[1])
    if at.kind == "f":
        fn = at.a[0]
        if fn in ("abs", "exp", "cosh", "argn"):
            return True
        if fn == "pow":
            return nonneg_struct(at.a[1])
        if fn in ("maxr", "minr"):
            return nonneg_struct(at.a[1].body)
    return False


def nonneg_struct(p, strict=False):
    """sufficient syntactic test for p >= 0 (or p > 0)"""
    k = (p, strict)
    r = _nncache.get(k)
    if r is not None:
        return r
    r = True
    anystrict = False
    for m, c in p.t.items():
        if c < 0:
            r = False
            break
        st = True
        for ai, e in m:
            at = _atom_list[ai]
            if not nonneg_atom(at, e):
                r = False
                break
            if not at.pos:
                st = False
        if not r:
            break
        anystrict = anystrict or st
    if r and strict and not anystrict:
        r = False
    _nncache[k] = r
    return r


# ------------------------------------------------------------------------------------------ variables
def V(name, integer=False, pos=False, nonneg=False):
    return P(_mk("v", (name, integer), EMPTY, 0, integer, pos, nonneg or pos))


_fresh = [0]


def fresh(name="i", integer=True, pos=False, nonneg=False):
    _fresh[0] += 1
    return V("%s~%d" % (name, _fresh[0]), integer, pos, nonneg)


def B(level, integer=True):
    return P(_mk("b", (level, integer), EMPTY, level, integer))


def atom_of(p):
    """the atom if p is exactly one atom to the first power"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atom_list[m[0][0]]
    return None


# ------------------------------------------------------------------------------------------ substitution
def subst(p, mp, memo=None):
    """mp: {atom id -> Poly}"""
    if memo is None:
        memo = {}
    if p.free.isdisjoint(mp):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    r = ZERO
    for m, c in p.t.items():
        acc = P(c)
        for ai, e in m:
            at = _atom_list[ai]
            if at.free.isdisjoint(mp):
                if at.kind in "Ip" or (at.kind == "f" and at.a[0] in ("sin", "abs")):
                    acc = pmul(acc, _atompow(at, e))
                else:
                    acc = pmul(acc, _poly({((ai, e),): Fr(1)}))
            else:
                acc = pmul(acc, ppow(subst_atom(at, mp, memo), e))
            if not acc.t:
                break
        r = padd(r, acc)
    memo[p] = r
    return r


SCACHE = [{}]      # results of substitutions under the facts in force (emptied when these change)


def subst_atom(at, mp, memo):
    if at.id in mp:
        return mp[at.id]
    k = at.kind
    if k == "p":
        return subst(at.a[0], mp, memo)
    if k == "f":
        return FN(at.a[0], *[subst_arg(x, mp, memo) for x in at.a[1:]])
    if k == "I":
        op, q = at.a
        return IV(op, subst(q, mp, memo))
    if k == "S":
        key = (at.id, tuple(sorted([(i, mp[i].key) for i in at.free if i in mp])))
        r = SCACHE[0].get(key)
        if r is not None:
            return r
        his, body = at.a
        vs, his2, body2 = open_sum(at)
        # open with fresh variables, substitute, rebuild
        r = subst(body2, mp, memo)
        hh = [subst(h, mp, memo) for h in his2]
        for v, h in reversed(list(zip(vs, hh))):
            r = SUM(v, h, r)
        SCACHE[0][key] = r
        return r
    raise Unsupported("subst " + k)


def subst_arg(x, mp, memo=None):
    if isinstance(x, Poly):
        return subst(x, mp, memo)
    if isinstance(x, Lam):
        if x.free.isdisjoint(mp):
            return x
        key = (x, tuple(sorted([(i, mp[i].key) for i in x.free if i in mp])))
        r = SCACHE[0].get(key)
        if r is None:
            vs, hs, body = x.open()
            r = SCACHE[0][key] = LAM(vs, [subst(h, mp) for h in hs], subst(body, mp))
        return r
    if isinstance(x, tuple):
        return tuple(subst_arg(y, mp, memo) for y in x)
    return x


# ------------------------------------------------------------------------------------------ lambdas
REALDOM = V("REALDOM")   # pseudo-dimension of lambdas over the reals
_lams = {}


class Lam:
    __slots__ = ("his", "body", "free", "lvl", "n", "_hash")

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return id(self) < id(o)

    def open(self):
        vs = [fresh("l", False) if h is REALDOM else fresh("l", nonneg=True) for h in self.his]
        base = self.lvl
        mp = {}
        for q in range(self.n):
            mp[atom_of(B(base - q, self.his[q] is not REALDOM)).id] = vs[q]
        memo = {}
        hs = [subst(h, mp, memo) for h in self.his]
        for v, h in zip(vs, hs):
            if h is not REALDOM:
                ranged(v, h)
        return vs, hs, subst(self.body, mp, memo)

    def __call__(self, *args):
        vs, hs, body = self.open()
        return subst(body, {atom_of(v).id: P(a) for v, a in zip(vs, args)})

    def __repr__(self):
        return "(\\%d. %r)" % (self.n, self.body)


def LAM(vs, his, body):
    """lambda over index variables vs (Poly vars) with dims his"""
    n = len(vs)
    his = [P(h) for h in his]
    inner = max([body.lvl] + [h.lvl for h in his])
    mp = {}
    for q, v in enumerate(vs):
        mp[atom_of(v).id] = B(inner + n - q, his[q] is not REALDOM)
    b = subst(body, mp)
    hs = tuple(subst(h, mp) for h in his)
    key = (hs, b, n, inner + n)
    r = _lams.get(key)
    if r is None:
        r = Lam()
        r.his, r.body, r.n, r.lvl = hs, b, n, inner + n
        r._hash = hash(key)
        fr = set(b.free)
        for h in hs:
            fr |= h.free
        fr -= {atom_of(x).id for x in mp.values()}
        r.free = frozenset(fr)
        _lams[key] = r
    return r


# ------------------------------------------------------------------------------------------ functions
UF = {}   # name -> dict(integer, pos, nonneg, num, facts)


def declare(name, **kw):
    UF.setdefault(name, {}).update(kw)


def arg_free(x):
    if isinstance(x, (Poly, Lam)):
        return x.free
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            r |= arg_free(y)
        return r
    return EMPTY


def arg_lvl(x):
    if isinstance(x, (Poly, Lam)):
        return x.lvl
    if isinstance(x, tuple):
        return max([arg_lvl(y) for y in x] + [0])
    return 0


_PI = None


def FN(name, *args):
    """function application, with the rewrite rules of the interpreted functions"""
    rule = RULES.get(name)
    if rule is not None:
        r = rule(*args)
        if r is not None:
            return r
    elif any(isinstance(x, Poly) and top_iverson(x) is not None for x in args):
        for q, x in enumerate(args):
            if isinstance(x, Poly) and top_iverson(x) is not None:
                return by_cases(x, lambda y: FN(name, *(args[:q] + (y,) + args[q + 1:])))
    return RAW(name, *args)


def RAW(name, *args):
    info = UF.get(name, {})
    fr = EMPTY
    lv = 0
    for x in args:
        fr |= arg_free(x)
        l = arg_lvl(x)
        if l > lv:
            lv = l
    at = _mk("f", (name,) + args, fr, lv, info.get("integer", False), info.get("pos", False),
             info.get("nonneg", False) or info.get("pos", False))
    return P(at)


def _sign_canon(p):
    """(+1|-1, q) with q's leading coefficient positive"""
    if p.key and p.key[-1][1] < 0:
        return -1, -p
    return 1, p


def PI():
    global _PI
    if _PI is None:
        _PI = V("pi", pos=True)
    return _PI


def _pi_shift(p):
    """(q, r) p = q + r*pi/2 with r integer part extracted"""
    pm = next(iter(PI().t))
    c = p.t.get(pm)
    if c is None:
        return p, 0
    r = c * 2
    n = r.numerator // r.denominator
    if n == 0:
        return p, 0
    return p - PI() * Fr(n, 2), n


def _drop_turns(x, half=False):
    """x without its terms that are whole turns 2*pi*n (with half: half turns pi*n), n an integer expression"""
    pid = next(iter(PI().t))[0][0]
    out = None
    for m, c in x.t.items():
        if len(m) < 2 or c.denominator != 1 or (c.numerator % 2 and not half):
            continue
        e = dict(m)
        if e.pop(pid, None) != 1:
            continue
        if all(_atom_list[a].integer and q.denominator == 1 and q > 0 for a, q in e.items()):
            out = dict(x.t) if out is None else out
            del out[m]
    return x if out is None else _poly(out)


def r_cos(x):
    y = _drop_turns(x)
    if y is not x:
        return FN("cos", y)
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("cos", y))
    s, x = _sign_canon(x)
    x2, n = _pi_shift(x)
    if n:
        n %= 4
        if n == 0:
            return FN("cos", x2)
        if n == 1:
            return -FN("sin", x2)
        if n == 2:
            return -FN("cos", x2)
        return FN("sin", x2)
    if not x.t:
        return ONE
    return None


def r_sin(x):
    y = _drop_turns(x)
    if y is not x:
        return FN("sin", y)
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("sin", y))
    s, x1 = _sign_canon(x)
    x2, n = _pi_shift(x1)
    if n:
        n %= 4
        r = (FN("sin", x2), FN("cos", x2), -FN("sin", x2), -FN("cos", x2))[n]
        return r if s > 0 else -r
    if not x.t:
        return ZERO
    if s < 0:
        return -RAW("sin", x1)
    return RAW("sin", x1)


def r_cos_raw(x):
    r = r_cos(x)
    if r is None:
        s, x = _sign_canon(x)
        return RAW("cos", x)
    return r


def r_exp(x):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("exp", y))
    r = ONE
    for m, c in x.t.items():
        if m == ():
            at = _mk("f", ("exp", ONE), EMPTY, 0, False, True, True)
        else:
            q = _poly({m: Fr(1)})
            at = _mk("f", ("exp", q), q.free, q.lvl, False, True, True)
        r = pmul(r, _poly({((at.id, c),): Fr(1)}))
    return r


def r_abs(x):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("abs", y))
    if not x.t:
        return ZERO
    if len(x.t) == 1:
        (m, c), = x.t.items()
        r = P(abs(c))
        for ai, e in m:
            at = _atom_list[ai]
            if at.pos or nonneg_atom(at, e):
                r = pmul(r, _atompow(at, e))
            elif at.kind == "f" and at.a[0] == "abs":
                r = pmul(r, _atompow(at, e))
            elif at.kind == "f" and at.a[0] in ("sin", "cos") and _drop_turns(at.a[1], True) is not at.a[1]:
                r = pmul(r, ppow(FN("abs", FN(at.a[0], _drop_turns(at.a[1], True))), e))
            else:
                b = P(_mk("f", ("abs", P(at)), at.free, at.lvl, at.integer, False, True))
                r = pmul(r, ppow(b, e))
        return r
    if nonneg_struct(x):
        return x
    if nonneg_struct(-x):
        return -x
    c, mono, q = content(x)
    if mono or abs(c) != 1:
        return FN("abs", P(c) * _monopow(mono, Fr(1))) * FN("abs", q) if (mono) else abs(c) * FN("abs", q)
    if q is not x:
        return FN("abs", q)
    return P(_mk("f", ("abs", x), x.free, x.lvl, x.integer, False, True))


def r_cosh(x):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("cosh", y))
    s, x = _sign_canon(x)
    if not x.t:
        return ONE
    at = atom_of(x)
    if at is not None and at.kind == "f" and at.a[0] == "arccosh":
        return at.a[1]
    return P(_mk("f", ("cosh", x), x.free, x.lvl, False, True, True))


def r_sinh(x):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("sinh", y))
    s, x1 = _sign_canon(x)
    if not x.t:
        return ZERO
    return RAW("sinh", x1) * s


def r_pow(x, e):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: _powsym(y, e))
    c = e.const
    if c is not None:
        return ppow(x, c)
    if top_iverson(e) is not None:
        return by_cases(e, lambda y: FN("pow", x, y))
    # |x|**e keeps the base as is
    return None


def r_floor(x):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("floor", y))
    if x.integer:
        return x
    # pull integer-valued monomials
    whole = {}
    rest = {}
    for m, c in x.t.items():
        q = _poly({m: c})
        if q.integer:
            whole[m] = c
        else:
            rest[m] = c
    r = _poly(rest)
    cst = rest.get(())
    w = _poly(whole)
    if cst is not None:
        n = cst.numerator // cst.denominator
        if n:
            r = r - n
            w = w + n
    if r.const is not None:
        return w + (r.const.numerator // r.const.denominator)
    return w + P(_mk("f", ("floor", r), r.free, r.lvl, True))


def r_ceil(x):
    return -FN("floor", -x)


def r_remainder(x, y):
    # x - y*floor(x/y)
    return x - y * FN("floor", x / y)


def r_maxr(lam):
    return _extremum("maxr", lam)


def r_minr(lam):
    return _extremum("minr", lam)


def _extremum(name, lam):
    other = {"maxr": "minr", "minr": "maxr"}[name]
    vs, hs, body = lam.open()
    ids = {atom_of(v).id for v in vs}
    if body.free.isdisjoint(ids):
        return body
    c, mono, q = content(body)
    indep = tuple(x for x in mono if _atom_list[x[0]].free.isdisjoint(ids))
    fac = P(abs(c))
    for ai, e in indep:
        at = _atom_list[ai]
        if at.pos or nonneg_atom(at, e):
            fac = fac * _atompow(at, e)
    if fac is not ONE:
        return fac * FN(name, LAM(vs, hs, body / fac))
    if c < 0 and len(body.t) == 1:
        return -FN(other, LAM(vs, hs, -body))
    # constant offset independent of the index
    off = {m: cc for m, cc in body.t.items()
           if all(_atom_list[ai].free.isdisjoint(ids) for ai, e in m)}
    if off:
        o = _poly(off)
        return o + FN(name, LAM(vs, hs, body - o))
    return None


def r_interp(x, xp, fp):
    """np.interp(x, xp, fp): linear in fp"""
    if isinstance(x, Poly) and top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("interp", y, xp, fp))
    vs, hs, body = fp.open()
    ids = {atom_of(v).id for v in vs}
    if body.free.isdisjoint(ids):
        return body
    parts = []
    change = len(body.t) > 1
    for m, c in body.t.items():
        ind = ONE
        dep = []
        for ai, e in m:
            if _atom_list[ai].free.isdisjoint(ids):
                ind = pmul(ind, _poly({((ai, e),): Fr(1)}))
            else:
                dep.append((ai, e))
        if ind is not ONE or c != 1:
            change = True
        parts.append((ind * c, tuple(dep)))
    if change:
        r = ZERO
        for ind, dep in parts:
            r = r + (ind * FN("interp", x, xp, LAM(vs, hs, _poly({dep: Fr(1)}))) if dep else ind)
        return r
    # interp(l*x, l*xp, fp) = interp(x, xp, fp) for l > 0
    vs, hs, body = xp.open()
    ids = {atom_of(v).id for v in vs}
    if not body.t:
        return None
    g, mono, q = content(body)
    fac = P(abs(g))
    for ai, e in mono:
        at = _atom_list[ai]
        if at.free.isdisjoint(ids) and (at.pos or (e < 0 and nonneg_atom(at, e))):
            fac = fac * _atompow(at, e)
    if fac is not ONE:
        nb = body * pinv(fac)
        return FN("interp", x * pinv(fac), LAM(vs, hs, nb), fp)
    return None


def r_arctan2(y, x):
    for q, z in ((0, y), (1, x)):
        if top_iverson(z) is not None:
            return by_cases(z, lambda w: FN("arctan2", w, x) if q == 0 else FN("arctan2", y, w))
    # arctan2(k*y, k*x) for positive k
    if y.t and x.t:
        c1, m1, q1 = content(y)
        c2, m2, q2 = content(x)
        d1, d2 = dict(m1), dict(m2)
        fac = ONE
        for ai in set(d1) | set(d2):
            at = _atom_list[ai]
            if at.pos:
                e = min(d1.get(ai, Fr(0)), d2.get(ai, Fr(0)))
                if e:
                    fac = fac * _atompow(at, e)
        g = abs(c1)
        fac = fac * g
        if fac is not ONE:
            return FN("arctan2", y / fac, x / fac)
    return None


def r_sqrt(x):
    return ppow(x, Fr(1, 2))


def r_arccosh(x):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("arccosh", y))
    return None


def r_arctan(x):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("arctan", y))
    s, x1 = _sign_canon(x)
    if s < 0:
        return -RAW("arctan", x1)
    return None


def r_round(x, n):
    if top_iverson(x) is not None:
        return by_cases(x, lambda y: FN("round", y, n))
    if x.integer and n.const is not None and n.const >= 0:
        return x
    return None


RULES = {"cos": r_cos_raw, "sin": r_sin, "exp": r_exp, "abs": r_abs, "cosh": r_cosh, "sinh": r_sinh,
         "pow": r_pow, "floor": r_floor, "ceil": r_ceil, "remainder": r_remainder, "maxr": r_maxr, "minr": r_minr,
         "interp": r_interp, "arctan2": r_arctan2, "sqrt": r_sqrt, "arccosh": r_arccosh, "arctan": r_arctan,
         "round": r_round}
declare("floor", integer=True)


# ------------------------------------------------------------------------------------------ Iverson brackets
# decide hook: prover installs a function (op, poly) -> True/False/None under current facts
_decide = [None]


def IV(op, p):
    """[p op 0], op in lt, le, eq  -> Poly"""
    if top_iverson(p) is not None:
        return by_cases(p, lambda q: IV(op, q))
    c = p.const
    if c is not None:
        return ONE if {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op] else ZERO
    if op == "lt" and p.integer:
        return IV("le", p + 1)
    g, mono, q = content(p)
    # strip positive factors
    sgn = 1 if g > 0 else -1
    strip = ONE
    keep = []
    for ai, e in mono:
        at = _atom_list[ai]
        if at.pos:
            continue
        keep.append((ai, e))
    base = q if not keep else pmul(q, _poly({tuple(keep): Fr(1)}))
    if op == "eq":
        s, base = _sign_canon(base)
        if nonneg_struct(base, strict=True):
            return ZERO
    else:
        if nonneg_struct(p, strict=(op == "le")):
            return ZERO
        if nonneg_struct(-p, strict=(op == "lt")):
            return ONE
        if p.integer:
            # only strip the numeric gcd soundly: p = g*mono*q, use original integer poly divided by content of
            # non constant part
            base, sgn = _int_norm(p)
            # base <= 0 canonical: choose positive leading non-constant coefficient
            if sgn < 0:
                # p = -base' ; p<=0  <=> base' >= 0 <=> not (base' <= -1) <=> 1-[base'+1<=0]
                return ONE - IVraw("le", base + 1)
            return IVraw("le", base)
        if sgn < 0:
            # -base < 0 <=> base > 0 <=> not base <= 0
            return ONE - (IVraw("le", base) if op == "lt" else IVraw("lt", base))
        if op == "lt" and nonneg_struct(base):
            return ZERO
        if op == "le" and nonneg_struct(base, strict=True):
            return ZERO
    return IVraw(op, base)


def _int_norm(p):
    """integer p (p<=0): divide by gcd of nonconstant coefficients with ceil on the constant; orient"""
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = math.gcd(g, abs(int(c)))
    c0 = int(p.t.get((), 0))
    lead = [c for m, c in p.key if m != ()][-1]
    t = {m: c / g for m, c in p.t.items() if m != ()}
    # sum t*g + c0 <= 0  <=> sum t <= -c0/g  <=> sum t - floor(-c0/g) <= 0
    k = (-c0) // g
    q = _poly(t) - k
    if lead < 0:
        return -q, -1
    return q, 1


def IVraw(op, base):
    if _decide[0] is not None:
        d = _decide[0](op, base)
        if d is not None:
            return ONE if d else ZERO
    return P(_mk("I", (op, base), base.free, base.lvl, True, False, True))


# ------------------------------------------------------------------------------------------ sums
def SUM(v, hi, body):
    """sum of body over v = 0 .. hi-1"""
    hi = P(hi)
    va = atom_of(v)
    if not body.t:
        return ZERO
    c = hi.const
    if c is not None:
        if c <= 0:
            return ZERO
        if c.denominator != 1:
            raise Unsupported("non integer sum bound")
        if c <= 64:
            r = ZERO
            for k in range(int(c)):
                r = r + subst(body, {va.id: P(k)})
            return r
    # canonical upper bound: strip positive constant offsets  sum_{<h+k} = sum_{<h} + f(h)..f(h+k-1)
    k = hi.t.get(())
    if k is not None and k.denominator == 1:
        base = hi - k
        if base.const is None and known_nonneg(base if k > 0 else base + k):
            if k > 0:
                r = SUM(v, base, body)
                for q in range(int(k)):
                    r = r + subst(body, {va.id: base + q})
                return r
            else:
                r = SUM(v, base, body)
                for q in range(int(-k)):
                    r = r - subst(body, {va.id: base - 1 - q})
                return r
    r = ZERO
    for m, cf in body.t.items():
        r = r + pscale(_sum_mono(v, va, hi, m), cf)
    return r


def known_nonneg(p):
    if nonneg_struct(p):
        return True
    if _decide[0] is not None:
        d = _decide[0]("lt", p) if not p.integer else _decide[0]("le", p + 1)
        return d is False
    return False


def _sum_mono(v, va, hi, m):
    ind = ONE
    dep = []
    for ai, e in m:
        at = _atom_list[ai]
        if va.id in at.free:
            dep.append((ai, e))
        else:
            ind = pmul(ind, _poly({((ai, e),): Fr(1)}))
    if not dep:
        return pmul(ind, hi)
    # Iverson factors linear in v
    for ai, e in dep:
        at = _atom_list[ai]
        if at.kind == "I":
            op, q = at.a
            lin = _linear_in(q, va)
            if lin is None:
                continue
            k, rest = lin           # q = k*v + rest
            if k not in (1, -1):
                continue
            others = _poly({tuple(x for x in dep if x[0] != ai): Fr(1)})
            if op == "eq":
                sol = rest * (-k)
                val = subst(others, {va.id: sol})
                g = IV("le", -sol) * IV("lt", sol - hi)
                return pmul(ind, g * val)
            # le: k*v + rest <= 0   (integer variables)
            if not rest.integer:
                continue
            if op == "lt":
                rest = rest + 1
            if k == 1:
                # v <= -rest : new hi = min(hi, -rest+1)
                nh = ONE - rest
                return pmul(ind, _sum_clip(v, va, hi, nh, others))
            # -v + rest <= 0: v >= rest : all minus v < rest
            full = SUM(v, hi, others)
            low = _sum_clip(v, va, hi, rest, others)
            return pmul(ind, full - low)
    return pmul(ind, _sum_atoms([(v, hi)], tuple(dep)))


def _sum_clip(v, va, hi, nh, others):
    """sum over 0<=v<min(hi, nh)"""
    if IV("lt", hi - nh) is ZERO:     # nh <= hi
        pos = IV("lt", -nh)
        return pos * SUM(v, nh, others) if pos is not ZERO else ZERO
    a = IV("lt", nh - hi)          # nh < hi
    pos = IV("lt", -nh)            # nh > 0
    r = ZERO
    if a is not ZERO:
        s = SUM(v, nh, others) if pos is not ZERO else ZERO
        r = r + a * pos * s
    if a is not ONE:
        r = r + (ONE - a) * SUM(v, hi, others)
    return r


def _linear_in(q, va):
    k = Fr(0)
    rest = {}
    for m, c in q.t.items():
        if any(va.id in _atom_list[ai].free for ai, e in m):
            if m == ((va.id, Fr(1)),):
                k += c
            else:
                return None
        else:
            rest[m] = c
    if k == 0:
        return None
    return int(k) if k.denominator == 1 else None, _poly(rest)


def _sum_atoms(vars_, mono):
    """vars_: list of (var Poly, hi) outermost first; mono: tuple of (atom id, exp), all vars relevant"""
    # flatten nested sums (exponent 1)
    vars_ = list(vars_)
    mono = list(mono)
    changed = True
    while changed:
        changed = False
        for q, (ai, e) in enumerate(mono):
            at = _atom_list[ai]
            if at.kind == "S" and e == 1:
                vs, his, body = open_sum(at)
                if len(body.t) != 1:
                    continue
                (bm, bc), = body.t.items()
                if bc != 1:
                    continue
                del mono[q]
                vars_.extend(zip(vs, his))
                # merge monomials
                mm, ex = _mono_mul(tuple(sorted(mono)), bm)
                if ex is not None:
                    # needs re-normalisation: rebuild through SUM
                    r = pmul(_poly({mm: Fr(1)}), ex)
                    for v, h in reversed(vars_):
                        r = SUM(v, h, r)
                    return r
                mono = list(mm)
                changed = True
                break
    # split in connected components
    ids = [atom_of(v).id for v, h in vars_]
    n = len(vars_)
    if n > 1:
        # a variable determined by an equation is summed first
        for ai, e in mono:
            at = _atom_list[ai]
            if at.kind != "I" or at.a[0] != "eq":
                continue
            for q in range(n):
                va = atom_of(vars_[q][0])
                if va.id not in at.free or any(va.id in vars_[z][1].free for z in range(n) if z != q):
                    continue
                lin = _linear_in(at.a[1], va)
                if lin is None or lin[0] not in (1, -1):
                    continue
                r = SUM(vars_[q][0], vars_[q][1], _poly({tuple(sorted(mono)): Fr(1)}))
                for z in reversed(range(n)):
                    if z != q:
                        r = SUM(vars_[z][0], vars_[z][1], r)
                return r
        comp = list(range(n))

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        for ai, e in mono:
            fr = _atom_list[ai].free
            xs = [q for q in range(n) if ids[q] in fr]
            for y in xs[1:]:
                comp[find(y)] = find(xs[0])
        for q in range(n):
            for z in range(n):
                if ids[z] in vars_[q][1].free:
                    comp[find(q)] = find(z)
        groups = {}
        for q in range(n):
            groups.setdefault(find(q), []).append(q)
        if len(groups) > 1:
            r = ONE
            used = set()
            for g in groups.values():
                gi = {ids[q] for q in g}
                mm = tuple(x for x in mono if not _atom_list[x[0]].free.isdisjoint(gi))
                used |= set(mm)
                if not mm:
                    f = ONE
                    for q in reversed(g):
                        f = SUM(vars_[q][0], vars_[q][1], f)
                else:
                    f = _sum_atoms([vars_[q] for q in g], mm)
                r = pmul(r, f)
            for x in mono:
                if x not in used:
                    r = pmul(r, _poly({(x,): Fr(1)}))
            return r
    # a variable of the group may no longer occur in the monomial
    body = _poly({tuple(sorted(mono)): Fr(1)})
    if n > 4:
        raise Unsupported("too many nested sums")
    best = None
    inner = max([body.lvl] + [h.lvl for v, h in vars_])
    for perm in permutations(range(n)):
        ok = True
        seen = set()
        for q in perm:
            for z in range(n):
                if ids[z] in vars_[q][1].free and z not in seen:
                    ok = False
            seen.add(q)
        if not ok:
            continue
        mp = {}
        for pos, q in enumerate(perm):
            mp[ids[q]] = B(inner + n - pos)
        his = tuple(subst(vars_[q][1], mp) for q in perm)
        b = subst(body, mp)
        if len(b.t) != 1:
            continue
        fr = set(b.free)
        for h in his:
            fr |= h.free
        fr -= {atom_of(x).id for x in mp.values()}
        at = _mk("S", (his, b), frozenset(fr), inner + n, False, False, nonneg_struct(b))
        if best is None or at.id < best.id:
            best = at
    if best is None:
        raise Unsupported("sum normalisation")
    return P(best)


VARRANGE = {}   # integer variable atom id -> Poly upper bound (exclusive); lower bound 0


def ranged(v, hi):
    VARRANGE[atom_of(v).id] = P(hi)
    return v


def open_sum(at):
    his, body = at.a
    n = len(his)
    vs = [fresh("s", nonneg=True) for _ in range(n)]
    mp = {}
    for q in range(n):
        mp[atom_of(B(at.lvl - q)).id] = vs[q]
    memo = {}
    hs = []
    for q, h in enumerate(his):
        hs.append(subst(h, mp, memo))
        ranged(vs[q], hs[-1])
    return vs, hs, subst(body, mp, memo)


# ------------------------------------------------------------------------------------------ conditions
class Cond:
    """boolean combination: ('lit', op, poly) | ('and', a, b..) | ('or', ..) | ('not', a) | True/False"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        if self.k == "lit":
            return "(%r %s 0)" % (self.a[1], {"lt": "<", "le": "<=", "eq": "=="}[self.a[0]])
        if self.k == "const":
            return str(self.a[0])
        return "%s(%s)" % (self.k, ", ".join(map(repr, self.a)))


TRUE = Cond("const", True)
FALSE = Cond("const", False)


def lit(op, p):
    c = p.const
    if c is not None:
        return TRUE if {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op] else FALSE
    return Cond("lit", op, p)


def cand(*xs):
    ys = []
    for x in xs:
        if x is FALSE or (x.k == "const" and not x.a[0]):
            return FALSE
        if x.k == "const":
            continue
        ys.append(x)
    if not ys:
        return TRUE
    return ys[0] if len(ys) == 1 else Cond("and", *ys)


def cor(*xs):
    ys = []
    for x in xs:
        if x.k == "const":
            if x.a[0]:
                return TRUE
            continue
        ys.append(x)
    if not ys:
        return FALSE
    return ys[0] if len(ys) == 1 else Cond("or", *ys)


def cnot(x):
    if x.k == "const":
        return FALSE if x.a[0] else TRUE
    if x.k == "not":
        return x.a[0]
    return Cond("not", x)


def cond_poly(c):
    """0/1 valued Poly of a condition"""
    if c.k == "const":
        return ONE if c.a[0] else ZERO
    if c.k == "lit":
        return IV(*c.a)
    if c.k == "not":
        return ONE - cond_poly(c.a[0])
    if c.k == "and":
        r = ONE
        for x in c.a:
            r = r * cond_poly(x)
        return r
    if c.k == "or":
        r = ONE
        for x in c.a:
            r = r * (ONE - cond_poly(x))
        return ONE - r
    raise Unsupported(c.k)


def cond_free(c):
    if c.k == "const":
        return EMPTY
    if c.k == "lit":
        return c.a[1].free
    r = EMPTY
    for x in c.a:
        r |= cond_free(x)
    return r


def cond_subst(c, mp):
    if c.k == "const":
        return c
    if c.k == "lit":
        return lit(c.a[0], subst(c.a[1], mp))
    if c.k == "not":
        return cnot(cond_subst(c.a[0], mp))
    xs = [cond_subst(x, mp) for x in c.a]
    return cand(*xs) if c.k == "and" else cor(*xs)


def ITE(c, a, b):
    """c: Cond"""
    if a is b:
        return a
    g = cond_poly(c)
    return g * a + (ONE - g) * b


# ------------------------------------------------------------------------------------------ printing
def atom_str(at):
    k = at.kind
    if k == "v":
        return at.a[0]
    if k == "b":
        return "#%d" % at.a[0]
    if k == "p":
        return "(%r)" % (at.a[0],)
    if k == "I":
        return "[%r %s 0]" % (at.a[1], {"lt": "<", "le": "<=", "eq": "=="}[at.a[0]])
    if k == "S":
        return "SUM{%s}(%r)" % (",".join("<%r" % (h,) for h in at.a[0]), at.a[1])
    return "%s(%s)" % (at.a[0], ", ".join(map(repr, at.a[1:])))


def poly_str(p, limit=40):
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.key)[:limit]:
        s = "*".join((atom_str(_atom_list[ai]) + ("" if e == 1 else "^%s" % e)) for ai, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    r = " + ".join(out)
    if len(p.t) > limit:
        r += " + ...(%d terms)" % len(p.t)
    return r
