"""Mechanical translation of the repository's modules into verification executables.

The source text of each module in /repo is parsed on every run; only these rewrites are applied:
  * for loops    -> the same loop driven by Loop (concrete iterables: unchanged; symbolic length: the body is executed
                    for one arbitrary iteration and the loop is replaced by inferred inductive summaries)
  * list / dict displays and comprehensions -> VList / VDict (same behaviour, may hold symbolic families)
  * a / b on two Python ints, float literals -> exact rationals
  * numpy, scipy, sympy, numba, skimage ... -> contracts of those libraries (npshim.py, libs.py)
Nothing else is dropped or changed; the resulting code object is executed by CPython.
"""
import ast
import builtins as _b
import os
import re
import sys
import types
from terms import *
import terms as T
import ctx
from ctx import CTX, unsupported, require, decide, quick, Fault
from prover import FACTS, holds, zero
from sym import *
import sym
import prover
import os as _os
DEBUG = bool(_os.environ.get('PV_TRACE'))


class Unb:
    def __repr__(self):
        return "<unbound>"


UNB = Unb()


class Poison:
    """value about which nothing is known"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        unsupported("use of a value the loop summary does not determine (%s)" % object.__getattribute__(self, "why"))

    def __getattribute__(self, n):
        if n == "__class__":
            return Poison
        object.__getattribute__(self, "_bad")()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __getitem__ = _bad
    __iter__ = __len__ = __bool__ = __call__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __pow__ = _bad
    __iadd__ = __setitem__ = __contains__ = _bad
    __hash__ = None

    def __deepcopy__(self, m):
        return self


# ============================================================================ symbolic sequences
class SymSeq:
    """sequence of symbolic length: n, item(Poly) -> value"""

    def __init__(self, n, item):
        self.n, self.item = P(n), item

    @property
    def sym_len(self):
        return self.n

    def get(self, i):
        return self.item(P(i))

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, ln, step = sym.slice_norm(k, self.n)
            return SymSeq(ln, lambda i: self.item(st + i * step))
        return self.item(sym.int_index(k, self.n, "list index out of range"))

    def __iter__(self):
        c = self.n.const
        if c is None:
            unsupported("native iteration over a symbolic-length sequence")
        return iter([self.item(P(k)) for k in range(int(c))])

    def __len__(self):
        c = self.n.const
        if c is None:
            unsupported("len() of symbolic sequence")
        return int(c)

    @staticmethod
    def from_arr(a):
        d = a.shape_[0]
        if isinstance(d, Poly) and d.const is not None:
            return VList([a[k] for k in range(int(d.const))])
        if not isinstance(d, Poly):
            unsupported("list of structured array")
        return SymSeq(d, lambda i: a[Num(i)])

    def to_arr(self):
        i = ranged(fresh("q", nonneg=True), self.n)
        x = self.item(i)
        if isnum(x):
            return Arr((self.n,), lambda idx: poly(self.item(idx[0])), "f")
        if isinstance(x, Arr):
            vid = atom_of(i).id
            for d in x.shape_:
                if isinstance(d, Poly) and vid in d.free:
                    unsupported("array from rows of varying length")
            return Arr((self.n,) + x.shape_, lambda idx: asarr(self.item(idx[0])).get(tuple(idx[1:])), "f")
        if isinstance(x, (list, tuple)):
            y = asarr(x)
            return Arr((self.n,) + y.shape_, lambda idx: asarr(self.item(idx[0])).get(tuple(idx[1:])), "f")
        unsupported("array from symbolic sequence")


class HeapSeq(SymSeq):
    """objects of a symbolic-length sequence, whose state is kept in shared arrays (heap)"""

    def __init__(self, n, item, heap):
        super().__init__(n, item)
        self.heap = list(heap)

    def __getitem__(self, k):
        if isinstance(k, slice):
            unsupported("slice of a sequence of objects")
        return super().__getitem__(k)


class SymIter(SymSeq):
    pass


class VList(list):
    """list; `segs` (when not None) replaces the native content by a concatenation of values and SymSeq segments"""
    segs = None
    poison = None

    def _chk(self):
        if self.segs is not None or self.poison:
            unsupported("native access to a list with symbolic content")

    def __deepcopy__(self, memo):
        import copy
        r = VList()
        memo[id(self)] = r
        if self.segs is not None:
            r.segs = list(self.segs)
        r.poison = self.poison
        list.extend(r, [copy.deepcopy(x, memo) for x in list.__iter__(self)])
        return r

    def __iter__(self):
        self._chk()
        return list.__iter__(self)

    def __len__(self):
        self._chk()
        return list.__len__(self)

    def __getitem__(self, k):
        if self.poison:
            self._chk()
        if self.segs is not None:
            return self.as_seq()[k]
        if isinstance(k, Num):
            if k.p.const is None:
                return asseq(list(list.__iter__(self)))[k]
            k = int(k)
        r = list.__getitem__(self, k)
        return VList(r) if isinstance(k, slice) else r

    def __setitem__(self, k, v):
        self._chk()
        if isinstance(k, Num):
            k = int(k)
        list.__setitem__(self, k, v)

    def append(self, x):
        if self.segs is not None:
            self.segs = self.segs + [x]
        else:
            list.append(self, x)

    def extend(self, xs):
        if isinstance(xs, SymSeq) or (isinstance(xs, VList) and xs.segs is not None) or isinstance(xs, Arr):
            if self.segs is None:
                self.segs = list(list.__iter__(self))
                list.clear(self)
            if isinstance(xs, VList):
                self.segs = self.segs + list(xs.segs)
            else:
                self.segs = self.segs + [xs if isinstance(xs, SymSeq) else SymSeq.from_arr(xs)]
            return
        for x in xs:
            self.append(x)

    def copy(self):
        r = VList(list.__iter__(self))
        r.segs = self.segs
        r.poison = self.poison
        return r

    @property
    def sym_len(self):
        n = ZERO
        for s in (self.segs if self.segs is not None else list(list.__iter__(self))):
            n = n + (s.n if isinstance(s, SymSeq) else ONE)
        return n

    def as_seq(self):
        if self.poison:
            self._chk()
        segs = self.segs if self.segs is not None else list(list.__iter__(self))
        if len(segs) == 1 and isinstance(segs[0], SymSeq):
            return segs[0]
        if any(isinstance(s, SymSeq) for s in segs):
            unsupported("indexing a list with several symbolic segments")
        return asseq(list(segs))

    def to_arr(self):
        if self.segs is not None:
            return self.as_seq().to_arr()
        self._chk()
        return asarr(list(list.__iter__(self)))

    def sort(self, **k):
        self._chk()
        r = b_sorted(list(list.__iter__(self)), **k)
        list.__setitem__(self, slice(None), list(list.__iter__(r)))

    def __add__(self, o):
        if isinstance(o, (Arr, Num)):
            return NotImplemented
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        return VList(o) + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __eq__(self, o):
        if self.segs is None and isinstance(o, VList) and o.segs is None:
            return list.__eq__(self, o)
        if self.segs is None and isinstance(o, list):
            return list.__eq__(self, o)
        unsupported("comparison of symbolic lists")

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None


def hasattr_seg(x):
    return isinstance(x, SymSeq) or (isinstance(x, VList) and x.segs is not None)


class VDict(dict):
    """dict; fams: families (var, hi, key(var), value(var)) written by a symbolic loop"""
    fams = None
    poison = None

    def _look(self, k):
        if self.poison:
            unsupported("reading a dictionary the loop writes")
        for (v, hi, key, val) in reversed(self.fams or []):
            if not isnum(k):
                continue
            c = match_key(v, hi, key, poly(k))
            if c is not None:
                return True, subst_value(val, {atom_of(v).id: c})
        return False, None

    def __getitem__(self, k):
        if self.fams or self.poison:
            ok, r = self._look(k)
            if ok:
                return r
            if isnum(k) and poly(k).const is None:
                unsupported("symbolic key not resolved")
        if isinstance(k, Num) and not dict.__contains__(self, k):
            for q in dict.keys(self):
                if isnum(q):
                    e = mkbool(lit("eq", poly(q) - poly(k)))
                    if bool(e):
                        return dict.__getitem__(self, q)
        if isinstance(k, tuple) and not dict.__contains__(self, k) and any(isinstance(x, Num) for x in k):
            for q in dict.keys(self):
                if isinstance(q, tuple) and len(q) == len(k):
                    if all((x is y) or bool(x == y) for x, y in zip(q, k)):
                        return dict.__getitem__(self, q)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        if self.fams or self.poison:
            return self._look(k)[0] or dict.__contains__(self, k)
        return dict.__contains__(self, k)

    def __iter__(self):
        self._n()
        return dict.__iter__(self)

    def _n(self):
        if self.fams or self.poison:
            unsupported("iteration over a dictionary with symbolic keys")

    def keys(self):
        self._n()
        return dict.keys(self)

    def items(self):
        self._n()
        return dict.items(self)

    def values(self):
        self._n()
        return dict.values(self)

    def __len__(self):
        self._n()
        return dict.__len__(self)

    def __deepcopy__(self, memo):
        import copy
        r = VDict()
        memo[id(self)] = r
        for k, v in dict.items(self):
            dict.__setitem__(r, k, copy.deepcopy(v, memo))
        r.fams = list(self.fams) if self.fams else None
        r.poison = self.poison
        return r

    def copy(self):
        r = VDict(dict.items(self))
        r.fams = list(self.fams) if self.fams else None
        r.poison = self.poison
        return r


def match_key(v, hi, key, k):
    """index c with key(c) = k, or None"""
    va = atom_of(v)
    B_ = subst(key, {va.id: v + 1}) - key
    if va.id in B_.free:
        return None
    A_ = subst(key, {va.id: ZERO})
    if not B_.t:
        return None
    c = (k - A_) / B_
    if not c.integer:
        # candidate variables of k
        for ai in sorted(k.free):
            q = T._poly({((ai, 1),): Fr(1)})
            if q.integer and not (subst(key, {va.id: q}) - k).t:
                c = q
                break
        else:
            return None
    if holds(lit("le", -c)) and holds(lit("lt", c - hi)):
        return c
    return None


def asseq(x):
    """iterable -> SymSeq when its length is symbolic, else a plain list"""
    if isinstance(x, SymSeq):
        return x if x.n.const is None else list(iter(x))
    if isinstance(x, VList):
        if x.segs is not None:
            s = x.as_seq()
            return s if s.n.const is None else list(iter(s))
        if x.poison:
            x._chk()
        return SeqList(list(list.__iter__(x)))
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        d = x.shape_[0]
        if isinstance(d, Poly) and d.const is not None:
            return [x[k] for k in range(int(d.const))]
        if not isinstance(d, Poly):
            unsupported("iteration over structured array")
        return SymSeq(d, lambda i: x[Num(i)])
    if isinstance(x, list):
        return SeqList(x)
    return x


class SeqList(list):
    """concrete list indexable by a symbolic number"""

    def __getitem__(self, k):
        if isinstance(k, Num):
            c = k.p.const
            if c is not None:
                return list.__getitem__(self, int(c))
            xs = list(list.__iter__(self))
            require(lit("le", -k.p), "list index out of range")
            require(lit("lt", k.p - len(xs)), "list index out of range")
            if all(isnum(y) for y in xs):
                return Num(pick([lambda r, y=y: poly(y) for y in xs], k.p, ()))
            unsupported("symbolic index into a list of objects")
        return list.__getitem__(self, k)


def is_sym(x):
    return isinstance(x, SymSeq)


# ============================================================================ substitution in values
def replace_fn(p, mp, memo=None):
    """replace applications of the function names in mp: name -> callable(*args)"""
    if memo is None:
        memo = {}
    if mentions(p).isdisjoint(mp):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    r = ZERO
    for m, c in p.t.items():
        acc = P(c)
        for ai, e in m:
            at = T._atom_list[ai]
            if at_mentions(at).isdisjoint(mp):
                acc = pmul(acc, T._poly({((ai, e),): Fr(1)}))
            else:
                acc = pmul(acc, ppow(_repl_atom(at, mp, memo), e))
            if not acc.t:
                break
        r = padd(r, acc)
    memo[p] = r
    return r


def _repl_arg(x, mp, memo):
    if isinstance(x, Poly):
        return replace_fn(x, mp, memo)
    if isinstance(x, Lam):
        if lam_mentions(x).isdisjoint(mp):
            return x
        vs, hs, body = x.open()
        return LAM(vs, [replace_fn(h, mp, memo) for h in hs], replace_fn(body, mp, memo))
    if isinstance(x, tuple):
        return tuple(_repl_arg(y, mp, memo) for y in x)
    return x


def _repl_atom(at, mp, memo):
    k = at.kind
    if k == "p":
        return replace_fn(at.a[0], mp, memo)
    if k == "f":
        args = [_repl_arg(x, mp, memo) for x in at.a[1:]]
        if at.a[0] in mp:
            return mp[at.a[0]](*args)
        return FN(at.a[0], *args)
    if k == "I":
        op, q = at.a
        return IV(op, replace_fn(q, mp, memo))
    if k == "S":
        vs, hs, body = T.open_sum(at)
        r = replace_fn(body, mp, memo)
        for v, h in reversed(list(zip(vs, [replace_fn(h, mp, memo) for h in hs]))):
            r = SUM(v, h, r)
        return r
    unsupported("replace in " + k)


_ment = {}


def mentions(p):
    r = _ment.get(p)
    if r is None:
        s = set()
        for m in p.t:
            for ai, e in m:
                s |= at_mentions(T._atom_list[ai])
        r = _ment[p] = frozenset(s)
    return r


def mentions_cond(c):
    if c.k == "const":
        return frozenset()
    if c.k == "lit":
        return mentions(c.a[1])
    r = frozenset()
    for x in c.a:
        r |= mentions_cond(x)
    return r


_atment = {}


def at_mentions(at):
    r = _atment.get(at.id)
    if r is None:
        s = set()
        if at.kind == "f":
            s.add(at.a[0])
            for x in at.a[1:]:
                s |= arg_mentions(x)
        elif at.kind == "p":
            s |= mentions(at.a[0])
        elif at.kind == "I":
            s |= mentions(at.a[1])
        elif at.kind == "S":
            for h in at.a[0]:
                s |= mentions(h)
            s |= mentions(at.a[1])
        r = _atment[at.id] = frozenset(s)
    return r


def lam_mentions(x):
    s = set(mentions(x.body))
    for h in x.his:
        s |= mentions(h)
    return s


def arg_mentions(x):
    if isinstance(x, Poly):
        return mentions(x)
    if isinstance(x, Lam):
        return lam_mentions(x)
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= arg_mentions(y)
        return s
    return set()


def map_value(v, f, fd=None, memo=None):
    """apply the Poly transformation f to every scalar in a value"""
    if memo is None:
        memo = {}
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Num):
        return Num(f(v.p))
    if isinstance(v, SBool):
        return mkbool(map_cond(v.c, f))
    if hasattr(type(v), "_pv_map"):
        return v._pv_map(f)
    if v is None or isinstance(v, (str, int, float, bool, bytes, type, types.FunctionType)):
        return v
    if isinstance(v, Arr):
        g = snapshot(v)
        r = Arr([map_dim(d, f) for d in v.shape_], lambda idx: f(g(idx)), v.dtype_)
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, tuple):
        return tuple(map_value(x, f, fd, memo) for x in v)
    if isinstance(v, VList):
        r = VList()
        memo[id(v)] = (r, v)
        if v.segs is not None:
            r.segs = [map_value(x, f, fd, memo) for x in v.segs]
        else:
            list.extend(r, [map_value(x, f, fd, memo) for x in list.__iter__(v)])
        return r
    if isinstance(v, SymSeq):
        return SymSeq(f(v.n), lambda i: map_value(v.item(i), f))
    if isinstance(v, Poison):
        return v
    return Poison("object created in a loop")


def map_cond(c, f):
    if c.k == "const":
        return c
    if c.k == "lit":
        return lit(c.a[0], f(c.a[1]))
    if c.k == "not":
        return cnot(map_cond(c.a[0], f))
    if c.k == "and":
        return cand(*[map_cond(x, f) for x in c.a])
    return cor(*[map_cond(x, f) for x in c.a])


def map_dim(d, f):
    if isinstance(d, Poly):
        return f(d)
    if isinstance(d, FlatDim):
        return FlatDim([f(c) for c in d.comps])
    if isinstance(d, CatDim):
        return CatDim([map_dim(s, f) for s in d.segs])
    if isinstance(d, LoopSeg):
        return LoopSeg(d.var, f(d.hi), map_dim(d.dim, f))
    unsupported("dim")


def subst_value(v, mp):
    return map_value(v, lambda p: subst(p, mp))


# ============================================================================ heap snapshots
def is_repo_obj(o):
    return getattr(type(o), "_pv_heap", False) or any(getattr(c, "__module__", "").startswith("cuprates_transport") for c in type(o).__mro__)


class Snap:
    """shallow contents of every mutable object reachable from the roots"""

    def __init__(self, roots):
        self.objs = {}
        todo = list(roots)
        while todo:
            o = todo.pop()
            if id(o) in self.objs:
                continue
            if isinstance(o, Arr):
                b = o.buf
                self.objs.setdefault(id(b), (b, "buf", (b.fn, b.memo, b.parts)))
                self.objs[id(o)] = (o, "arr", (o.shape_, o.buf, o.vmap, o.vspec))
            elif isinstance(o, VList) or type(o) is list or isinstance(o, SeqList):
                c = list(list.__iter__(o))
                self.objs[id(o)] = (o, "list", (c, getattr(o, "segs", None), getattr(o, "poison", None)))
                todo.extend(c)
            elif isinstance(o, dict):
                c = dict(dict.items(o))
                self.objs[id(o)] = (o, "dict", (c, getattr(o, "fams", None), getattr(o, "poison", None)))
                todo.extend(c.values())
            elif isinstance(o, tuple):
                self.objs[id(o)] = (o, "tuple", None)
                todo.extend(o)
            elif isinstance(o, HeapSeq):
                self.objs[id(o)] = (o, "tuple", None)
                todo.extend(o.heap)
            elif isinstance(o, types.MethodType):
                todo.append(o.__self__)
            elif is_repo_obj(o):
                d = dict(o.__dict__)
                self.objs[id(o)] = (o, "obj", d)
                todo.extend(d.values())

    def restore(self):
        for o, k, c in self.objs.values():
            if k == "buf":
                if o.fn is not c[0]:
                    o.fn, o.memo, o.parts = c
            elif k == "arr":
                o.shape_, o.buf, o.vmap, o.vspec = c
            elif k == "list":
                list.__setitem__(o, slice(None), c[0])
                if isinstance(o, VList):
                    o.segs, o.poison = c[1], c[2]
            elif k == "dict":
                dict.clear(o)
                dict.update(o, c[0])
                if isinstance(o, VDict):
                    o.fams, o.poison = c[1], c[2]
            elif k == "obj":
                o.__dict__.clear()
                o.__dict__.update(c)

    def diff(self):
        """changed locations -> current value"""
        out = {}
        for o, k, c in self.objs.values():
            if k == "buf":
                if o.fn is not c[0]:
                    out[("buf", id(o))] = o
            elif k == "arr":
                if o.shape_ is not c[0] and (o.buf is not c[1] or o.vmap is not c[2]):
                    out[("arr", id(o))] = o
            elif k == "list":
                cur = list(list.__iter__(o))
                if len(cur) != len(c[0]) or any(x is not y for x, y in zip(cur, c[0])) or getattr(o, "segs", None) is not c[1]:
                    out[("list", id(o))] = (cur, getattr(o, "segs", None))
            elif k == "dict":
                cur = dict(dict.items(o))
                if len(cur) != len(c[0]) or any(q not in c[0] or c[0][q] is not v for q, v in cur.items()) or getattr(o, "fams", None) is not c[1]:
                    out[("dict", id(o))] = (cur, getattr(o, "fams", None))
            elif k == "obj":
                d = o.__dict__
                for q, v in d.items():
                    if q not in c:
                        out[("attr", id(o), q)] = v
                    elif c[q] is not v:
                        if isinstance(v, Num) and isinstance(c[q], Num) and v.p is c[q].p:
                            continue
                        out[("attr", id(o), q)] = v
                for q in c:
                    if q not in d:
                        out[("attr", id(o), q)] = UNB
        return out

    def obj(self, i):
        return self.objs[i][0]

    def val(self, i):
        return self.objs[i][2]


# ============================================================================ loops
class HavList:
    pass


class LoopGuard(Exception):
    pass


_hav = [0]
LOOPSTATS = {"summaries": 0, "passes": 0}


def flat_idx(idx):
    out = []
    for x in idx:
        if isinstance(x, tuple):
            out.extend(flat_idx(x))
        elif isinstance(x, int):
            out.append(P(x))
        else:
            out.append(x)
    return out


class Loop:
    def __init__(self, it):
        self.src = asseq(it)
        self.sym = is_sym(self.src)
        self.post = None
        self.start = None

    def items(self):
        if not self.sym:
            yield from self.src
            return
        yield from self.summarise()

    def brk(self):
        if self.sym:
            unsupported("break or return inside a loop of symbolic length")

    # -------- values of the locals assigned in the loop
    def enter(self, names, locs):
        return tuple(self.start.get(n, UNB) for n in names)

    def exit(self, names, locs):
        if self.post is None:
            return tuple(locs.get(n, UNB) for n in names)
        return tuple(self.post.get(n, locs.get(n, UNB)) for n in names)

    # -------- branches inside the body
    def invariant(self, c):
        """the condition does not depend on the iteration"""
        fr = cond_free(c)
        if any(x >= self.first for x in fr):
            return False
        return not any(n.startswith("hav") and n[3:].isdigit() for n in mentions_cond(c))

    def decide(self, c):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            if self.pos > 12:
                unsupported("too many branches in a loop body")
        self.pos += 1
        self.made.append(v)
        g = c if v else cnot(c)
        self.guard.append(g)
        FACTS.push(g)
        return v

    def one_pass(self, setup, item):
        todo = [[]]
        self.results = []
        while todo:
            script = todo.pop()
            self.snap.restore()
            setup()
            self.script, self.pos, self.made, self.guard = script, 0, [], []
            m = FACTS.mark()
            CTX.depth_guard.append(self)
            LOOPSTATS["passes"] += 1
            self.passes += 1
            try:
                yield item()
            finally:
                if CTX.depth_guard and CTX.depth_guard[-1] is self:
                    CTX.depth_guard.pop()
            fr = sys._getframe(2)
            while fr.f_code.co_filename == __file__:
                fr = fr.f_back
            loc = dict(fr.f_locals)
            ch = self.snap.diff()
            for n in self.names:
                if loc.get(n, UNB) is not self.start.get(n, UNB):
                    ch[("loc", n)] = loc.get(n, UNB)
                elif n in self.hloc:
                    ch[("loc", n)] = loc.get(n, UNB)
            ch = {k: self.freeze(k, v) for k, v in ch.items()}
            self.results.append((cand(*self.guard), ch, loc))
            FACTS.reset(m)
            for k in range(len(script), len(self.made)):
                todo.append(self.made[:k] + [not self.made[k]])

    def freeze(self, k, v):
        """value-level copy (later restores must not change it)"""
        if k[0] == "buf":
            return ("fn", v.fn, v.memo)
        if isinstance(v, Arr):
            if v.vmap is None:
                r = Arr(v.shape_, snapshot(v), v.dtype_)
                r.buf.parts = v.buf.parts
                return r
            return copy_arr(v)
        return v

    def summarise(self):
        fr = sys._getframe(2)
        while fr.f_code.co_filename == __file__:
            fr = fr.f_back
        pre = dict(fr.f_locals)
        self.names = self.assigned
        self.passes = 0
        N = self.src.n
        LOOPSTATS["summaries"] += 1
        # is the loop certain to run?
        self.snap = Snap(list(pre.values()))
        i = ranged(fresh("it", nonneg=True), N)
        iv = atom_of(i).id
        self.first = iv
        self.i = i
        mark = FACTS.mark()
        FACTS.push(lit("lt", i - N))
        FACTS.push(lit("lt", -N))
        item = lambda: self.src.item(i)
        # ---- discovery
        self.start = {n: pre.get(n, UNB) for n in self.names}
        self.hloc = {}
        yield from self.one_pass(lambda: None, item)
        changed = {}
        for g, ch, loc in self.results:
            for k, v in ch.items():
                changed.setdefault(k, v)
        for rounds in range(4):
            # ---- havoc the changed locations
            self.hav = {}
            for k, v in changed.items():
                self.hav[k] = self.havoc(k, v)
            self.hloc = {k[1] for k in self.hav if k[0] == "loc"}
            st = {n: pre.get(n, UNB) for n in self.names}
            for k, h in self.hav.items():
                if k[0] == "loc":
                    st[k[1]] = h["value"]
            self.start = st

            def setup():
                for k, h in self.hav.items():
                    self.install(k, h)
            yield from self.one_pass(setup, item)
            new = {}
            for g, ch, loc in self.results:
                for k, v in ch.items():
                    if k not in changed:
                        new[k] = v
            if not new:
                break
            changed.update(new)
        else:
            unsupported("loop state does not stabilise")
        self.snap.restore()
        results = self.results
        # ---- merge paths and classify
        post = {}
        upd = {}
        for k, h in self.hav.items():
            vals = []
            for g, ch, loc in results:
                v = ch.get(k)
                if v is None and k not in ch:
                    v = self.unchanged(k, h)
                vals.append((g, v))
            upd[k] = vals
        FACTS.reset(mark)
        self.resolve(upd, i, N, pre)
        self.results_n = [g for g, ch, loc in results]
        self.results = None

    # -------- havoc
    def havoc(self, k, v):
        v0 = self.v0(k)
        h = {"v0": v0, "kind": None, "value": None}
        if k[0] == "buf":
            b = self.snap.obj(k[1])
            nm = self.hname()
            h.update(kind="buf", name=nm, fn=lambda idx, nm=nm: FN(nm, *flat_idx(idx)), shape=b.shape)
            declare(nm, integer=(b.dtype in "bi"))
            return h
        if k[0] == "list":
            h.update(kind="list")
            return h
        if k[0] == "dict":
            h.update(kind="dict")
            return h
        if k[0] == "arr":
            unsupported("array reshaped in place inside a loop")
        if isinstance(v0, Arr) and v0.shape_ == () and isnum(v):         # a 0-d array, then a scalar
            v0 = h["v0"] = Num(v0.get(()))
        if isnum(v0) and isnum(v) and not isinstance(v0, bool):
            nm = self.hname()
            integer = poly(v0).integer and poly(v).integer
            declare(nm, integer=integer)
            h.update(kind="num", name=nm, value=Num(FN(nm)))
            return h
        if isinstance(v, Arr) and (isinstance(v0, Arr) or isnum(v0)):
            nm = self.hname()
            p0 = sym.parts_of(v0) if isinstance(v0, Arr) and v0.ndim == 1 else None
            grows = isinstance(v0, Arr) and v0.ndim == 1 and v.ndim == 1 and not same_dim(v0.shape_[0], v.shape_[0])
            if grows:
                n = V(nm + "#n", integer=True, nonneg=True)
                fn = lambda idx: FN(nm, *flat_idx(idx))
                a = Arr((n,), fn, v.dtype_)
                a.buf.parts = [(n, a.get, a.buf)]
                h.update(kind="grow", name=nm, value=a, buf=a.buf)
                return h
            a = Arr(v.shape_, lambda idx: FN(nm, *flat_idx(idx)), v.dtype_)
            h.update(kind="arrval", name=nm, value=a, shape=v.shape_)
            return h
        h.update(kind="other", value=Poison("%s at the start of an iteration" % (k[-1],)))
        return h

    def hname(self):
        _hav[0] += 1
        return "hav%d" % _hav[0]

    def v0(self, k):
        if k[0] == "loc":
            return self.start0.get(k[1], UNB)
        if k[0] == "attr":
            return self.snap.val(k[1]).get(k[2], UNB)
        return self.snap.val(k[1])

    @property
    def start0(self):
        if not hasattr(self, "_start0"):
            self._start0 = dict(self.start)
        return self._start0

    def install(self, k, h):
        if k[0] == "attr":
            o = self.snap.obj(k[1])
            if h["kind"] == "other" and h["v0"] is UNB:
                o.__dict__.pop(k[2], None)
            else:
                if h["kind"] in ("arrval", "grow"):
                    h["value"] = self.refresh(h)
                o.__dict__[k[2]] = h["value"]
        elif k[0] == "loc":
            if h["kind"] in ("arrval", "grow"):
                h["value"] = self.refresh(h)
                self.start[k[1]] = h["value"]
        elif k[0] == "buf":
            b = self.snap.obj(k[1])
            b.fn, b.memo = h["fn"], {}
            h["curfn"] = b.fn
        elif k[0] == "list":
            o = self.snap.obj(k[1])
            if isinstance(o, VList):
                o.poison = True
            else:
                unsupported("loop modifies a list created outside the translated code")
        elif k[0] == "dict":
            o = self.snap.obj(k[1])
            if isinstance(o, VDict):
                o.poison = True
            else:
                unsupported("loop modifies a dict created outside the translated code")

    def refresh(self, h):
        a0 = h["value"]
        nm = h["name"]
        a = Arr(a0.shape_, lambda idx: FN(nm, *flat_idx(idx)), a0.dtype_)
        if h["kind"] == "grow":
            a.buf.parts = [(a.shape_[0], a.get, a.buf)]
        h.setdefault("bufs", []).append(a.buf)
        return a

    def unchanged(self, k, h):
        if k[0] == "buf":
            return ("fn", h["fn"], {})
        if k[0] in ("list", "dict"):
            return "same"
        return h["value"]

    def element(self, xs):
        """what a comprehension with effects collects in its generic iteration"""
        last = xs[-len(self.results_n):]
        if len(last) < len(self.results_n) or len(xs) != 1 + self.passes or not all(isnum(x) for x in last):
            unsupported("element of a comprehension with effects")
        r = None
        for g, x in zip(self.results_n, last):
            r = poly(x) if r is None else ITE(g, poly(x), r)
        e = self.clean(Num(r), self.rule, self.sub_start, self.hn)
        if e is None:
            unsupported("element of a comprehension with effects")
        return e

    # -------- classification and post-state
    def resolve(self, upd, i, N, pre):
        iv = atom_of(i).id
        havnames = {h["name"]: k for k, h in self.hav.items() if h.get("name")}
        hn = frozenset(havnames)
        lens = {atom_of(h["value"].shape_[0]).id for h in self.hav.values() if h["kind"] == "grow"}
        rule = {}       # loc -> dict with 'post' value and 'start' (callable) when resolved
        posts = {}
        FACTS_IN = [lit("lt", i - N), lit("lt", -N)]

        def merged(vals, get):
            """ITE over paths of the scalar get(value)"""
            r = None
            for g, v in vals:
                x = get(v)
                r = x if r is None else ITE(g, x, r)
            return r

        def sub_start(p, rl):
            mp = {}
            for nm in mentions(p) & hn:
                k = havnames[nm]
                if k not in rl or rl[k].get("start") is None:
                    return None
                mp[nm] = rl[k]["start"]
            return replace_fn(p, mp) if mp else p

        todo = dict(upd)
        progress = True
        while todo and progress:
            progress = False
            for k in list(todo):
                r = self.classify(k, self.hav[k], todo[k], i, N, hn, rule, merged, sub_start, lens)
                if r is not None:
                    rule[k] = r
                    del todo[k]
                    progress = True
        for k in todo:
            rule[k] = {"post": Poison("no loop invariant found for %s" % (k[-1],)), "start": None, "bad": True}
        self.rule, self.sub_start, self.hn = rule, sub_start, hn
        # ---- install the post-state
        self.post = {}
        for k, r in rule.items():
            self.put(k, r)

    def classify(self, k, h, vals, i, N, hn, rule, merged, sub_start, lens):
        iv = atom_of(i).id
        kind = h["kind"]
        if any(isinstance(v, Poison) for g, v in vals):
            return {"post": Poison("%s" % (k[-1],)), "start": None}
        if kind == "num" and all(isnum(v) for g, v in vals):
            v1 = merged(vals, poly)
            hv = FN(h["name"])
            return self.scalar_rule(h["name"], hv, v1, poly(h["v0"]), i, N, hn, rule, sub_start)
        if kind in ("arrval", "buf"):
            if kind == "arrval" and not all(isinstance(v, Arr) for g, v in vals):
                return {"post": Poison("mixed kinds for %s" % (k[-1],)), "start": None, "bad": True}
            shape = h["shape"]
            if kind == "arrval":
                for g, v in vals:
                    if len(v.shape_) != len(shape):
                        return {"post": Poison("array of varying dimension"), "start": None}
                    for d1, d2 in zip(v.shape_, shape):
                        if not same_dim(d1, d2):
                            return {"post": Poison("array of varying shape"), "start": None}
                v0 = h["v0"]
                if isnum(v0):
                    g0 = lambda idx: poly(v0)
                    ok0 = poly(v0).const == 0
                else:
                    ok0 = len(v0.shape_) == len(shape) and all(same_dim(a, b) for a, b in zip(v0.shape_, shape))
                    g0 = snapshot(v0)
            else:
                g0f, g0m = h["v0"][0], h["v0"][1]
                ok0 = True

                def g0(idx):
                    r = g0m.get(idx)
                    if r is None:
                        r = g0m[idx] = g0f(idx)
                    return r
            # generic index of every segment of the shape
            import itertools
            gens = [dim_generic(d) for d in shape]
            forms = set()
            bodies = {}

            def v1at(idx):
                if kind == "buf":
                    return merged(vals, lambda v: v[1](idx))
                return merged(vals, lambda v: v.get(idx))
            nm = h["name"]
            for idx in itertools.product(*gens):
                v1 = v1at(idx)
                hv = FN(nm, *flat_idx(idx))
                f = self.form(nm, hv, v1, i, N, hn, rule, sub_start)
                if f is None:
                    return None
                forms.add(f)
            if len(forms) > 1:
                forms.discard("same")
            if len(forms) > 1:
                if forms <= {"accum", "write", "same"}:
                    forms = {"write"}
                else:
                    return {"post": Poison("mixed loop forms"), "start": None, "bad": True}
            form = forms.pop()
            dt = "f"

            def at(idx, upto):
                v1 = v1at(idx)
                hv = FN(nm, *flat_idx(idx))
                if form != "same" and self.split(nm, hv, v1) is None:
                    # not of that form at a compound index: take it at the indices it was examined at
                    for q, (x, d) in enumerate(zip(idx, shape)):
                        if isinstance(d, Poly) and d.const is not None and d.const <= 4 and isinstance(x, Poly) and x.const is None:
                            r = None
                            for k in range(int(d.const)):
                                v = at(tuple(idx[:q]) + (P(k),) + tuple(idx[q + 1:]), upto)
                                r = v if r is None else ITE(lit("eq", x - k), v, r)
                            return r
                    gen = tuple(fresh("gi", nonneg=True) for x in idx if isinstance(x, Poly))
                    gen = tuple(ranged(q, d) for q, d in zip(gen, shape) if isinstance(d, Poly))
                    if len(gen) != len(idx) or self.split(nm, FN(nm, *gen), v1at(gen)) is None:
                        unsupported("loop value at this index")
                    return subst(at(gen, upto), {atom_of(q).id: x for q, x in zip(gen, idx)})
                return self.value_at(form, nm, hv, v1, g0(idx), i, upto, hn, rule, sub_start)
            if form == "last":
                # value written by the last iteration; before the loop ran the old value
                if not holds(lit("lt", -N)) and not ok0:
                    post = Poison("value depends on whether the loop ran")
                else:
                    post = lambda idx: at(idx, N)
            else:
                if not ok0:
                    return {"post": Poison("array of varying shape"), "start": None, "bad": True}
                post = lambda idx: at(idx, N)
            start = None
            if ok0:
                start = lambda *fl: at(unflat(fl, shape), i)
            if isinstance(post, Poison):
                return {"post": post, "start": start}
            if kind == "buf":
                return {"post": ("fn", post), "start": start}
            if form == "last":
                sh = [map_dim(d, lambda p: subst(p, {iv: N - 1})) for d in shape]
            else:
                sh = shape
            v = vals[0][1]
            return {"post": Arr(sh, post, v.dtype_), "start": start}
        if kind == "grow":
            return self.grow(k, h, vals, i, N, hn, rule, sub_start)
        if kind == "list":
            if len(vals) != 1:
                same = [v for g, v in vals if isinstance(v, str)]
                return {"post": Poison("conditional append"), "start": None, "bad": True}
            cur, segs = vals[0][1]
            old, osegs = h["v0"][0], h["v0"][1]
            if osegs is None and segs is None and len(cur) > len(old) and all(x is y for x, y in zip(cur, old)):
                new = cur[len(old):]
            elif osegs is not None and segs is not None and len(segs) > len(osegs) and all(x is y for x, y in zip(segs, osegs)):
                new = segs[len(osegs):]
            else:
                return {"post": Poison("list rewritten in a loop"), "start": None, "bad": True}
            if len(new) != 1 or isinstance(new[0], SymSeq):
                return {"post": Poison("several appends per iteration"), "start": None, "bad": True}
            e = new[0]
            e2 = self.clean(e, rule, sub_start, hn)
            if e2 is None:
                return None
            seg = SymSeq(N, lambda q: subst_value(e2, {iv: q}))
            return {"post": ("segs", (list(old) if osegs is None else list(osegs)) + [seg]), "start": None}
        if kind == "dict":
            if len(vals) != 1:
                return {"post": Poison("conditional dict store"), "start": None, "bad": True}
            cur, fams = vals[0][1]
            old, ofams = h["v0"][0], h["v0"][1]
            new = {q: v for q, v in cur.items() if q not in old or old[q] is not v}
            if any(q in old for q in new) or any(not isinstance(q, Num) for q in new) or len(cur) < len(old):
                return {"post": Poison("dict rewritten in a loop"), "start": None, "bad": True}
            fam = []
            for q, v in new.items():
                if iv not in q.p.free or (mentions(q.p) & hn):
                    return {"post": Poison("dict key"), "start": None, "bad": True}
                # distinct iterations use distinct keys
                stp = subst(q.p, {iv: i + 1}) - q.p
                if iv in stp.free or not holds(cnot(lit("eq", stp))):
                    return {"post": Poison("dict keys not provably distinct"), "start": None, "bad": True}
                v2 = self.clean(v, rule, sub_start, hn)
                if v2 is None:
                    return None
                fam.append((i, N, q.p, v2))
            return {"post": ("fams", dict(old), list(ofams or []) + fam), "start": None}
        # other kinds: value written in every iteration, nothing known before
        if len(vals) == 1:
            v = vals[0][1]
            c = self.clean(v, rule, sub_start, hn)
            if c is None:
                return None
            if not holds(lit("lt", -N)):
                if h["v0"] is UNB or not (isnum(c) and isnum(h["v0"])):
                    if c is None or not self.dep(c, iv):
                        pass
                    return {"post": Poison("value depends on whether the loop ran"), "start": None}
            return {"post": subst_value(c, {iv: N - 1}), "start": None}
        if all(isnum(v) for g, v in vals) and holds(lit("lt", -N)):
            c = sub_start(merged(vals, poly), rule)
            if c is None:
                return None
            return {"post": Num(subst(c, {iv: N - 1})), "start": None}
        return {"post": Poison("%s" % (k[-1],)), "start": None}

    def dep(self, v, iv):
        return True

    def clean(self, v, rule, sub_start, hn):
        """value with start-of-iteration symbols replaced; None when some are unresolved"""
        bad = []

        def f(p):
            if mentions(p).isdisjoint(hn):
                return p
            r = sub_start(p, rule)
            if r is None:
                raise _Unresolved()
            return r
        try:
            if isinstance(v, Num):
                return Num(f(v.p))
            if isinstance(v, Arr):
                g = snapshot(v)
                import itertools
                for idx in itertools.product(*[dim_generic(d) for d in v.shape_]):
                    f(g(idx))
                if mentions_dims(v.shape_, hn):
                    return None
                r = Arr(v.shape_, lambda idx: f(g(idx)), v.dtype_)
                return r
            if isinstance(v, tuple):
                out = [self.clean(x, rule, sub_start, hn) for x in v]
                return None if any(x is None and y is not None for x, y in zip(out, v)) else tuple(out)
        except _Unresolved:
            return None
        return v

    def scalar_rule(self, nm, hv, v1, v0, i, N, hn, rule, sub_start):
        f = self.form(nm, hv, v1, i, N, hn, rule, sub_start)
        if f is None:
            return None
        return {"post": Num(self.value_at(f, nm, hv, v1, v0, i, N, hn, rule, sub_start)),
                "start": lambda: self.value_at(f, nm, hv, v1, v0, i, i, hn, rule, sub_start)}

    def split(self, nm, hv, v1):
        """v1 = g * hv + r with r, g free of nm; None if not linear"""
        if nm not in mentions(v1):
            return ZERO, v1
        ha = atom_of(hv).id
        g, r = ZERO, ZERO
        for m, c in v1.t.items():
            e = dict(m).get(ha)
            if e == 1:
                g = g + T._poly({tuple(x for x in m if x[0] != ha): c})
            elif e is None:
                r = r + T._poly({m: c})
            else:
                return None
        if nm in mentions(g) or nm in mentions(r):
            return None
        return g, r

    def form(self, nm, hv, v1, i, N, hn, rule, sub_start):
        iv = atom_of(i).id
        s = self.split(nm, hv, v1)
        if s is None:
            # substitute other locations first
            v2 = sub_start_except(v1, nm, rule, sub_start, hn)
            s = self.split(nm, hv, v2) if v2 is not None else None
            if s is None:
                return None
        g, r = s
        g2, r2 = sub_start(g, rule), sub_start(r, rule)
        if g2 is None or r2 is None:
            return None
        if g2 is ONE and r2 is ZERO:
            return "same"
        if g2 is ONE:
            return "accum"
        if g2 is ZERO:
            return "last"
        # guarded write: 1 - g is a 0/1 condition, disjoint between iterations
        c = ONE - g2
        if not prover.zero(c * (ONE - c)):
            return None
        if not prover.zero(r2 * g2):
            return None
        j = ranged(fresh("jt", nonneg=True), N)
        cj = subst(c, {iv: j})
        m = FACTS.mark()
        FACTS.push(lit("lt", i - j))
        ok = prover.zero(c * cj)
        FACTS.reset(m)
        if not ok:
            return None
        return "write"

    def value_at(self, form, nm, hv, v1, v0, i, upto, hn, rule, sub_start):
        """value at the start of iteration `upto` (N: after the loop)"""
        iv = atom_of(i).id
        if form == "same":
            return v0
        s = self.split(nm, hv, v1)
        if s is None:
            s = self.split(nm, hv, sub_start_except(v1, nm, rule, sub_start, hn))
        g, r = s
        g, r = sub_start(g, rule), sub_start(r, rule)
        if form == "last":
            last = subst(r, {iv: upto - 1})
            if holds(lit("lt", -upto)):
                return last
            return ITE(lit("lt", -upto), last, v0)
        j = ranged(fresh("s", nonneg=True), upto)
        if form == "accum":
            return v0 + SUM(j, upto, subst(r, {iv: j}))
        c = ONE - g
        return v0 * (ONE - SUM(j, upto, subst(c, {iv: j}))) + SUM(j, upto, subst(r, {iv: j}))

    def grow(self, k, h, vals, i, N, hn, rule, sub_start):
        iv = atom_of(i).id
        bad = {"post": Poison("array grown irregularly"), "start": None, "bad": True}
        if len(vals) != 1:
            return bad
        v = vals[0][1]
        if not isinstance(v, Arr) or v.buf.parts is None:
            return bad
        ps = v.buf.parts
        if not ps or ps[0][2] not in h.get("bufs", [h["buf"]]):
            return bad
        new = merge_parts(ps[1:])
        segs = []
        for d, g, b in new:
            if mentions_dims([d], hn) or any(x in free_of_dim(d) for x in [atom_of(h["value"].shape_[0]).id]):
                return bad
            import itertools
            for idx in dim_generic(d):
                p = g((idx,))
                if sub_start(p, rule) is None:
                    return None
            segs.append((d, lambda idx, g=g: sub_start(g(idx), rule)))
        d0 = h["v0"].shape_[0]
        p0 = sym.parts_of(h["v0"])
        p0 = [p for p in p0 if not (isinstance(p[0], Poly) and p[0] is ZERO)]
        if not segs:
            return {"post": h["v0"], "start": None}
        if len(segs) == 1:
            dim, getter = segs[0]
        else:
            dim = CatDim([s[0] for s in segs])
            getter = lambda idx: segs[idx[0][0]][1]((idx[0][1],))
        seg = LoopSeg(i, N, dim)
        q = fresh("it", nonneg=True)
        seg = LoopSeg(q, N, map_dim(dim, lambda p: subst(p, {iv: q})))
        ranged(q, N)
        gl = lambda idx: subst(getter((idx[0][1],)), {iv: idx[0][0]})
        return {"post": arr_from_parts(p0 + [(seg, gl, None)], v.dtype_), "start": None}

    def put(self, k, r):
        post = r["post"]
        if k[0] == "loc":
            self.post[k[1]] = post
            return
        if k[0] == "attr":
            o = self.snap.obj(k[1])
            if post is UNB:
                o.__dict__.pop(k[2], None)
            else:
                o.__dict__[k[2]] = post
            return
        if isinstance(post, Poison):
            if DEBUG:
                print("loop summary:", k, object.__getattribute__(post, "why"))
            if k[0] == "buf":
                b = self.snap.obj(k[1])
                b.fn, b.memo = (lambda idx, w=object.__getattribute__(post, "why"): unsupported("array contents after a loop: " + w)), {}
            else:
                self.snap.obj(k[1]).poison = True
            return
        o = self.snap.obj(k[1])
        if k[0] == "buf":
            o.fn, o.memo = post[1], {}
            o.parts = None
        elif k[0] == "list":
            list.clear(o)
            o.segs = post[1]
            o.poison = None
        elif k[0] == "dict":
            dict.clear(o)
            dict.update(o, post[1])
            o.fams = post[2]
            o.poison = None


class _Unresolved(Exception):
    pass


def free_of_dim(d):
    if isinstance(d, Poly):
        return d.free
    if isinstance(d, FlatDim):
        return frozenset().union(*[c.free for c in d.comps])
    if isinstance(d, CatDim):
        return frozenset().union(*[free_of_dim(c) for c in d.segs])
    return d.hi.free | free_of_dim(d.dim)


def mentions_dims(shape, hn):
    for d in shape:
        if isinstance(d, Poly):
            if not mentions(d).isdisjoint(hn):
                return True
        elif isinstance(d, FlatDim):
            if mentions_dims(d.comps, hn):
                return True
        elif isinstance(d, CatDim):
            if mentions_dims(d.segs, hn):
                return True
        elif isinstance(d, LoopSeg):
            if mentions_dims([d.hi, d.dim], hn):
                return True
    return False


def sub_start_except(p, nm, rule, sub_start, hn):
    return None


def unflat(fl, shape):
    fl = list(fl)

    def take(d):
        if isinstance(d, Poly):
            return fl.pop(0)
        if isinstance(d, FlatDim):
            return tuple(fl.pop(0) for _ in d.comps)
        if isinstance(d, CatDim):
            q = int(fl.pop(0).const)
            return (q, take(d.segs[q]))
        i = fl.pop(0)
        return (i, take(d.at(i)))
    return tuple(take(d) for d in shape)


def merge_parts(ps):
    """merge neighbouring plain parts into one piecewise part"""
    out = []
    run = []

    def flush():
        if not run:
            return
        if len(run) == 1:
            out.append(run[0])
        else:
            arrs = [Arr((d,), g, "f") for d, g, b in run]
            a = concatenate(arrs)
            out.append((a.shape_[0], a.get, None))
        run.clear()
    for p in ps:
        if isinstance(p[0], Poly):
            run.append(p)
        else:
            flush()
            out.append(p)
    flush()
    return out


def arr_from_parts(ps, dt):
    if len(ps) == 1:
        d, g, b = ps[0]
        if isinstance(d, LoopSeg):
            a = Arr((CatDim([d]),), lambda idx: g((idx[0][1],)), dt)
        else:
            a = Arr((d,), g, dt)
    elif all(isinstance(p[0], Poly) for p in ps):
        a = concatenate([Arr((d,), g, dt) for d, g, b in ps])
    else:
        a = Arr((CatDim([p[0] for p in ps]),), lambda idx: ps[idx[0][0]][1]((idx[0][1],)), dt)
    a.buf.parts = ps
    return a


# ============================================================================ comprehensions
class Rec:
    pass


_comp = []


def comp_iter(x):
    s = asseq(x)
    if not is_sym(s):
        _comp.append(None)
        yield from s
        return
    if CTX.depth_guard and isinstance(CTX.depth_guard[-1], CompGuard):
        unsupported("nested symbolic comprehension")
    i = ranged(fresh("q", nonneg=True), s.n)
    g = CompGuard()
    _comp.append((i, s.n))
    m = FACTS.mark()
    FACTS.push(lit("lt", i - s.n))
    CTX.depth_guard.append(g)
    fr = sys._getframe(1)
    while fr.f_code.co_filename == __file__:
        fr = fr.f_back
    snap = Snap(list(fr.f_locals.values()))
    try:
        yield s.item(i)
    finally:
        CTX.depth_guard.remove(g)
        FACTS.reset(m)
    if snap.diff():
        # evaluating the element changes state: the comprehension is a loop
        snap.restore()
        lp = Loop(s)
        lp.assigned = ()
        yield from lp.items()
        _comp[-1] = (lp, s.n)


class CompGuard:
    def decide(self, c):
        unsupported("branch inside a symbolic comprehension")


def listcomp(xs):
    r = _comp.pop() if _comp else None
    if r is None:
        return VList(xs)
    i, n = r
    if isinstance(i, Loop):
        e, i = i.element(xs), i.i
    elif len(xs) != 1:
        unsupported("filtered symbolic comprehension")
    else:
        e = xs[0]
    iv = atom_of(i).id
    v = VList()
    v.segs = [SymSeq(n, lambda q: subst_value(e, {iv: q}))]
    return v


# ============================================================================ builtins
class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Num):
            return cls._num(x)
        return isinstance(x, cls._py)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._py)


class b_int(metaclass=_NumMeta):
    _py = int
    __name__ = "int"

    @staticmethod
    def _num(x):
        return x.p.integer

    def __new__(cls, x=0, *a):
        if isinstance(x, str):
            return int(x, *a)
        if isnum(x) or isinstance(x, Arr):
            p = poly(x)
            return sc(trunc(p))
        return int(x)


class b_float(metaclass=_NumMeta):
    _py = float
    __name__ = "float"

    @staticmethod
    def _num(x):
        return not x.p.integer

    def __new__(cls, x=0.0):
        if isinstance(x, str):
            return Num(lift_float(float(x)))
        return Num(poly(x))


def b_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return sc(dsize(x.shape_[0]))
    if isinstance(x, SymSeq):
        return sc(x.n)
    if isinstance(x, VList):
        if x.poison:
            x._chk()
        return sc(x.sym_len)
    return len(x)


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    ps = [poly(x) for x in a]
    if any(not p.integer for p in ps):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if all(p.const is not None for p in ps):
        return range(*[int(p.const) for p in ps])
    lo, hi = (ZERO, ps[0]) if len(ps) == 1 else (ps[0], ps[1])
    if len(ps) == 3 and ps[2] is not ONE:
        unsupported("range with a step")
    n = hi - lo
    if not holds(lit("le", -n)):
        if sym.decide_q(lit("lt", n)):
            return range(0)
    return SymSeq(n, lambda i: sc(lo + i))


def b_enumerate(x, start=0):
    s = asseq(x)
    if is_sym(s):
        return SymSeq(s.n, lambda i: (sc(i + poly(start)), s.item(i)))
    return enumerate(s, start)


def b_zip(*xs):
    ss = [asseq(x) for x in xs]
    if any(is_sym(s) for s in ss):
        n = None
        for s in ss:
            m = s.n if is_sym(s) else P(len(s))
            if n is None:
                n = m
            elif not (holds(lit("eq", n - m))):
                unsupported("zip of sequences of different symbolic length")
        def item(i):
            return tuple(s.item(i) if is_sym(s) else s[Num(i)] for s in ss)
        return SymSeq(n, item)
    return zip(*ss)


def b_reversed(x):
    s = asseq(x)
    if is_sym(s):
        return SymSeq(s.n, lambda i: s.item(s.n - 1 - i))
    return reversed(list(s))


def b_list(x=()):
    if isinstance(x, VList):
        return x.copy()
    s = asseq(x)
    if is_sym(s):
        r = VList()
        r.segs = [s]
        return r
    return VList(s)


def b_tuple(x=()):
    s = asseq(x)
    if is_sym(s):
        return b_list(s)
    return tuple(s)


def b_dict(*a, **k):
    if a and isinstance(a[0], VDict):
        r = a[0].copy()
        r.update(k)
        return r
    return VDict(*a, **k)


def libs_sum0(a):
    import libs
    return libs.np_sum(a, axis=0)


def b_sum(x, start=0):
    s = asseq(x)
    if is_sym(s):
        i = ranged(fresh("s", nonneg=True), s.n)
        v = s.item(i)
        if isnum(v):
            return Num(poly(start) + SUM(i, s.n, poly(v)))
        if isinstance(v, Arr) and isnum(start) and holds(lit("lt", -s.n)):
            return start + libs_sum0(s.to_arr())
        unsupported("sum() of symbolic objects")
    r = start
    for y in s:
        r = r + y
    return r


def _ext(name, a, k):
    default = k.pop("default", UNB)
    key = k.pop("key", None)
    if key is not None:
        unsupported(name + " with key")
    if len(a) == 1:
        s = asseq(a[0])
        if is_sym(s):
            i = ranged(fresh("m", nonneg=True), s.n)
            require(lit("lt", -s.n), name + "() of an empty sequence")
            v = s.item(i)
            return Num(sym.EXT(name + "r", [i], [s.n], poly(v)))
        xs = list(s)
    else:
        xs = list(a)
    if not xs:
        if default is not UNB:
            return default
        raise ValueError("%s() iterable argument is empty" % name)
    if not any(isinstance(x, (Num, Arr)) for x in xs):
        return getattr(_b, name)(xs)
    ps = [poly(x) for x in xs]
    r = ps[0]
    for p in ps[1:]:
        c = lit("lt", p - r) if name == "min" else lit("lt", r - p)
        q = quick(c)
        if q is True:
            r = p
        elif q is None:
            r = ITE(c, p, r)
    return sc(r)


def b_max(*a, **k):
    return _ext("max", a, k)


def b_min(*a, **k):
    return _ext("min", a, k)


def b_sorted(x, key=None, reverse=False):
    s = asseq(x)
    if is_sym(s):
        if key is None and not reverse:
            return SymSeq.from_arr(s.to_arr()[sym.argsort(s.to_arr())])
        unsupported("sorted of symbolic sequence")
    xs = list(s)
    # symbolic numbers: order by decisions
    return VList(sorted(xs, key=key, reverse=reverse))


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, Num):
        return Num(FN("round", x.p, P(n or 0)))
    if isinstance(x, Arr):
        return x.round(n or 0)
    return round(x, n) if n is not None else round(x)


def b_print(*a, **k):
    CTX.notes.append(("print", a))


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if isinstance(q, type) and q.__name__ == "ndarray":
            if isinstance(x, Arr):
                return True
            continue
        if q is b_list or q is b_tuple or q is b_dict:
            q = {b_list: list, b_tuple: tuple, b_dict: dict}[q]
        if isinstance(x, q):
            return True
    return False


def b_any(x):
    s = asseq(x)
    if is_sym(s):
        i = ranged(fresh("s", nonneg=True), s.n)
        return mkbool(cnot(lit("eq", SUM(i, s.n, cond_poly(tocond(s.item(i)))))))
    r = FALSE
    for y in s:
        r = cor(r, tocond(y) if isinstance(y, (SBool, Num)) else (TRUE if y else FALSE))
    return mkbool(r)


def b_all(x):
    s = asseq(x)
    if is_sym(s):
        i = ranged(fresh("s", nonneg=True), s.n)
        return mkbool(lit("eq", SUM(i, s.n, ONE - cond_poly(tocond(s.item(i))))))
    r = TRUE
    for y in s:
        r = cand(r, tocond(y) if isinstance(y, (SBool, Num)) else (TRUE if y else FALSE))
    return mkbool(r)


def b_exit(*a):
    raise SystemExit(*a)


def b_open(*a, **k):
    import libs
    return libs.open_(*a, **k)


PROGRAM = [None]


def b_pow(a, b):
    return a ** b


# ============================================================================ the rewriting
class VC:
    """runtime support object bound to __vc__ in translated modules"""

    @staticmethod
    def loop(it, names):
        l = Loop(it)
        l.assigned = names
        return l

    @staticmethod
    def div(a, b):
        if type(a) in (int, bool) and type(b) in (int, bool):
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return Num(P(Fr(int(a), int(b)))) if a % b else Num(P(Fr(a, b)))
        return a / b

    @staticmethod
    def mod(a, b):
        if not isinstance(a, str):
            return a % b
        args = list(b) if isinstance(b, tuple) else [b]
        if isinstance(b, dict) or not any(isnum(x) and not isinstance(x, (int, float)) for x in args):
            return a % b
        out, pos = [], 0
        for m in re.finditer(r"%([-+ #0]*)(\d*)(\.\d+)?([diouxXeEfFgGcrsa%])", a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(4) == "%":
                out.append("%")
                continue
            if not args:
                raise TypeError("not enough arguments for format string")
            x = args.pop(0)
            if isinstance(x, Num):
                out.append(format(x, m.group(1) + m.group(2) + (m.group(3) or "") + m.group(4)))
            else:
                out.append(m.group(0) % (x,))
        if args:
            raise TypeError("not all arguments converted during string formatting")
        return "".join(out) + a[pos:]

    @staticmethod
    def flt(s):
        return Num(P(Fr(s)))

    @staticmethod
    def no(x):
        """`not x` without forcing a decision when x is symbolic"""
        if isinstance(x, SBool):
            return mkbool(cnot(x.c))
        return not x

    it = staticmethod(comp_iter)
    lc = staticmethod(listcomp)
    VList = VList
    VDict = VDict
    UNB = UNB


def assigned_names(nodes):
    out = []

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out and not n.id.startswith("__lp"):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for x in nodes:
        W().visit(x)
    return out


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infunc = 0
        self.loops = []

    def call(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), name, ast.Load()), list(args), [])

    def visit_FunctionDef(self, node):
        self.infunc += 1
        saved, self.loops = self.loops, []
        gl = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                gl |= set(x.names)
        sg, self.gl = getattr(self, "gl", set()), gl
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.gl = sg
        self.loops = saved
        self.infunc -= 1
        return node

    def visit_Lambda(self, node):
        saved, self.loops = self.loops, []
        self.generic_visit(node)
        self.loops = saved
        return node

    def visit_ClassDef(self, node):
        saved, self.loops = self.loops, []
        sf, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.infunc = sf
        self.loops = saved
        return node

    def visit_For(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        node.iter = self.visit(node.iter)
        names = [n for n in assigned_names([node.target] + node.body) if n not in self.gl]
        self.n += 1
        lp, x = "__lp%d" % self.n, "__lpx%d" % self.n
        self.loops.append(lp)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loops.pop()
        els = []
        for s in node.orelse:
            r = self.visit(s)
            els.extend(r if isinstance(r, list) else [r])
        L = lambda n: ast.Name(n, ast.Load())
        S = lambda n: ast.Name(n, ast.Store())
        tnames = ast.Tuple([ast.Constant(n) for n in names], ast.Load())
        locs = ast.Call(L("locals"), [], [])
        pre = ast.Assign([S(lp)], self.call("loop", node.iter, tnames))
        assign = ast.Assign([ast.Tuple([S(n) for n in names], ast.Store())],
                            ast.Call(ast.Attribute(L(lp), "enter", ast.Load()), [tnames, locs], []))
        enter = ast.If(ast.Attribute(L(lp), "sym", ast.Load()), [assign], [])
        tgt = ast.Assign([node.target], L(x))
        loop = ast.For(S(x), ast.Call(ast.Attribute(L(lp), "items", ast.Load()), [], []), [enter, tgt] + body, els)
        post = ast.If(ast.Attribute(L(lp), "sym", ast.Load()),
                      [ast.Assign([ast.Tuple([S(n) for n in names], ast.Store())],
                                  ast.Call(ast.Attribute(L(lp), "exit", ast.Load()), [tnames, locs], []))], [])
        out = [pre, loop, post]
        for o in out:
            ast.copy_location(o, node)
            for z in ast.walk(o):
                if not hasattr(z, "lineno"):
                    ast.copy_location(z, node)
        return out

    visit_While = ast.NodeTransformer.generic_visit

    def visit_Break(self, node):
        if self.loops:
            return [ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name(self.loops[-1], ast.Load()), "brk", ast.Load()), [], [])), node), node]
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.loops:
            return [ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name(l, ast.Load()), "brk", ast.Load()), [], [])), node)
                    for l in self.loops] + [node]
        return node

    def visit_ListComp(self, node):
        simple = len(node.generators) == 1
        self.generic_visit(node)
        if not simple:
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "VList", ast.Load()), [node], []), node)
        g = node.generators[0]
        g.iter = self.call("it", g.iter)
        return ast.copy_location(self.call("lc", node), node)

    def visit_Call(self, node):
        # a generator consumed as a whole, at once, is the list of its elements
        a = node.args
        if isinstance(node.func, ast.Name) and node.func.id in ("sum", "list", "tuple", "sorted") and a \
                and isinstance(a[0], ast.GeneratorExp) and len(a[0].generators) == 1:
            a[0] = ast.copy_location(ast.ListComp(a[0].elt, a[0].generators), a[0])
        self.generic_visit(node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call("VList", node), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("VDict", node), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("VDict", node), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(self.call("div", node.left, node.right), node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call("mod", node.left, node.right), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node

    def visit_Constant(self, node):
        if type(node.value) is float:
            v = node.value
            if v == v and abs(v) != float("inf"):
                return ast.copy_location(self.call("flt", ast.Constant(repr(v))), node)
        return node

    def visit_JoinedStr(self, node):
        # format specs contain constants that must stay strings
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node


REPO = os.environ.get("VERIF_REPO", "/repo")


class Program:
    """the translated package, loaded fresh from /repo"""

    def __init__(self, repo=None):
        import libs
        self.repo = repo or REPO
        PROGRAM[0] = self
        self.mods = {}
        self.libs = libs
        self.sources = {}

    def path(self, name):
        return os.path.join(self.repo, *name.split(".")) + ".py"

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "cuprates_transport":
            m = types.ModuleType(name)
            self.mods[name] = m
            return m
        p = self.path(name)
        src = open(p).read()
        self.sources[name] = src
        tree = ast.parse(src, p)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, p, "exec")
        m = types.ModuleType(name)
        m.__file__ = p
        g = m.__dict__
        g["__vc__"] = VC
        g["__builtins__"] = self.builtins()
        self.mods[name] = m
        exec(code, g)
        setattr(self.load("cuprates_transport"), name.split(".")[-1], m)
        return m

    def builtins(self):
        d = dict(_b.__dict__)
        d.update({"int": b_int, "float": b_float, "len": b_len, "range": b_range, "enumerate": b_enumerate,
                  "zip": b_zip, "list": b_list, "tuple": b_tuple, "dict": b_dict, "sum": b_sum, "max": b_max,
                  "min": b_min, "sorted": b_sorted, "abs": b_abs, "round": b_round, "print": b_print,
                  "isinstance": b_isinstance, "any": b_any, "all": b_all, "exit": b_exit, "open": b_open,
                  "reversed": b_reversed, "pow": b_pow, "__import__": self.imp})
        return d

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = "cuprates_transport" + ("." + name if name else "")
        if name.startswith("cuprates_transport"):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name == "cuprates_transport":
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load("cuprates_transport")
        return self.libs.import_(name, fromlist, self)
