"""Symbolic scalars and lazily evaluated symbolic arrays with NumPy semantics (shapes, broadcasting, views,
in-place writes), over exact reals and mathematical integers."""
import builtins
import itertools
from fractions import Fraction as Fr
from terms import *
import terms as T
from ctx import CTX, unsupported, require, decide, Fault, quick
from prover import FACTS, holds
import prover

_round = builtins.round


# ============================================================================ scalars
class SBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return decide(self.c)

    def __and__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return mkbool(cand(self.c, tocond(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return mkbool(cor(self.c, tocond(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(cnot(self.c))

    def __mul__(self, o):
        if isinstance(o, (SBool, bool)):
            return self & o
        if isinstance(o, Arr):
            return NotImplemented
        return Num(cond_poly(self.c)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return Num(cond_poly(self.c)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return Num(cond_poly(self.c)) - o

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            a, b = self.c, tocond(o)
            return mkbool(cor(cand(a, b), cand(cnot(a), cnot(b))))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "SBool(%r)" % (self.c,)

    def all(self):
        return self

    any = all

    def __deepcopy__(self, m):
        return self


def not_(x):
    if isinstance(x, bool):
        return not x
    return mkbool(cnot(tocond(x)))


def mkbool(c):
    if c.k == "const":
        return c.a[0]
    return SBool(c)


def tocond(x):
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Num)):
        return cnot(lit("eq", poly(x)))
    if isinstance(x, Arr):
        return tocond(x.item())
    unsupported("condition from %s" % type(x).__name__)


def poly(x):
    t = type(x)
    if t is Poly:
        return x
    if t is Num:
        return x.p
    if t in (int, float, bool, Fr):
        return P(x)
    if t is SBool:
        return cond_poly(x.c)
    if isinstance(x, Arr):
        if x.ndim == 0:
            return x.get(())
        if all(isinstance(d, Poly) and d is ONE for d in x.shape_):
            return x.get(tuple(ZERO for _ in x.shape_))
        raise TypeError("only length-1 arrays can be converted to Python scalars ('Arr')")
    if isinstance(x, (int, float)):
        return P(x)
    unsupported("not a number: %s" % t.__name__)


def isnum(x):
    return isinstance(x, (int, float, Num, Fr, SBool)) and not isinstance(x, complex)


class Num:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def _bin(self, o, f):
        if isinstance(o, Arr):
            return NotImplemented
        if not isnum(o):
            return NotImplemented
        return mknum(f(self.p, poly(o)))

    def _rbin(self, o, f):
        if isinstance(o, Arr):
            return NotImplemented
        if not isnum(o):
            return NotImplemented
        return mknum(f(poly(o), self.p))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rbin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, sdiv)
    def __rtruediv__(self, o): return self._rbin(o, sdiv)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: FN("floor", sdiv(a, b)))
    def __rfloordiv__(self, o): return self._rbin(o, lambda a, b: FN("floor", sdiv(a, b)))
    def __mod__(self, o): return self._bin(o, lambda a, b: FN("remainder", a, b))
    def __rmod__(self, o): return self._rbin(o, lambda a, b: FN("remainder", a, b))
    def __pow__(self, o): return self._bin(o, ppow)
    def __rpow__(self, o): return self._rbin(o, ppow)
    def __neg__(self): return mknum(-self.p)
    def __pos__(self): return self
    def __abs__(self): return mknum(FN("abs", self.p))
    def __round__(self, n=0): return mknum(FN("round", self.p, P(n or 0)))
    def __floor__(self): return mknum(FN("floor", self.p))

    def _cmp(self, o, op, swap):
        if isinstance(o, Arr) or not isnum(o):
            return NotImplemented
        a, b = self.p, poly(o)
        if swap:
            a, b = b, a
        return mkbool(cmpc(op, a - b))

    def __lt__(self, o): return self._cmp(o, "lt", False)
    def __le__(self, o): return self._cmp(o, "le", False)
    def __gt__(self, o): return self._cmp(o, "lt", True)
    def __ge__(self, o): return self._cmp(o, "le", True)

    def __eq__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if not isnum(o):
            return False
        return mkbool(cmpc("eq", self.p - poly(o)))

    def __ne__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if not isnum(o):
            return True
        return mkbool(cnot(cmpc("eq", self.p - poly(o))))

    def __hash__(self):
        c = self.p.const
        return hash(self.p) if c is None else hash(c)

    def __bool__(self):
        return decide(cnot(cmpc("eq", self.p)))

    def __index__(self):
        c = self.p.const
        if c is not None and c.denominator == 1:
            return int(c)
        unsupported("symbolic number used as a concrete index")

    __int__ = __index__

    def __float__(self):
        c = self.p.const
        if c is not None:
            return float(c)
        unsupported("symbolic number converted to a concrete float")

    def __format__(self, spec):
        return token("fmt", spec, self.p)

    def __str__(self):
        return token("str", "", self.p)

    def __repr__(self):
        return token("repr", "", self.p)

    # numpy scalar surface
    shape = ()
    ndim = 0
    size = 1

    def item(self): return self
    def copy(self): return self
    def astype(self, *a, **k): return self
    def all(self): return not_(self == 0)
    def any(self): return not_(self == 0)
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def T(self): return self
    def is_integer(self):
        return True if self.p.integer else mkbool(lit("eq", self.p - FN("floor", self.p)))


def cmpc(op, p):
    """condition p op 0 with cheap normalisation"""
    iv = IV(op, p)
    c = iv.const
    if c is not None:
        return TRUE if c == 1 else FALSE
    return lit(op, p)


_tokens = {}
_tokrev = {}


def token(kind, spec, p):
    c = p.const
    if c is not None:
        v = int(c) if c.denominator == 1 else float(c)
        try:
            return format(v, spec) if kind == "fmt" else (str(v) if kind == "str" else repr(v))
        except ValueError:
            return format(float(v), spec)
    k = (kind, spec, p)
    t = _tokens.get(k)
    if t is None:
        t = "\u27e6%d\u27e7" % len(_tokens)
        _tokens[k] = t
        _tokrev[t] = k
    return t


def sdiv(a, b):
    """a / b with the safety obligation that b is not the constant zero"""
    if not b.t:
        raise ZeroDivisionError("division by zero")
    return a * pinv(b)


def mknum(p):
    if p.t and len(p.t) == 1 and () in p.t:
        c = p.t[()]
        if c.denominator == 1:
            return Num(p)
    return Num(p)


def sc(x):
    """python scalar for a Poly: int when constant integer"""
    c = x.const
    if c is not None and c.denominator == 1:
        return int(c)
    return Num(x)


def N_(x):
    return x if isinstance(x, Num) else Num(poly(x))


# ============================================================================ dimensions
class FlatDim:
    """flattened product of dimensions (row major): indices are tuples"""
    __slots__ = ("comps",)

    def __init__(self, comps):
        self.comps = tuple(comps)

    @property
    def size(self):
        r = ONE
        for c in self.comps:
            r = r * c
        return r

    def __repr__(self):
        return "Flat%r" % (self.comps,)


class CatDim:
    """concatenation of segments; segs: list of Dim or LoopSeg.  Index: (segment number, index within)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    @property
    def size(self):
        r = ZERO
        for s in self.segs:
            r = r + (s.size if not isinstance(s, Poly) else s)
        return r

    def __repr__(self):
        return "Cat%r" % (self.segs,)


class LoopSeg:
    """segments indexed by var < hi, each of dimension dim (which may mention var). Index: (i, inner)"""
    __slots__ = ("var", "hi", "dim")

    def __init__(self, var, hi, dim):
        self.var, self.hi, self.dim = var, hi, dim

    @property
    def size(self):
        return SUM(self.var, self.hi, dsize(self.dim))

    def at(self, i):
        return dim_subst(self.dim, {atom_of(self.var).id: i})

    def __repr__(self):
        return "Loop(%r<%r: %r)" % (self.var, self.hi, self.dim)


def dsize(d):
    return d if isinstance(d, Poly) else d.size


def dim_subst(d, mp):
    if isinstance(d, Poly):
        return subst(d, mp)
    if isinstance(d, FlatDim):
        return FlatDim([subst(c, mp) for c in d.comps])
    if isinstance(d, CatDim):
        return CatDim([dim_subst(s, mp) for s in d.segs])
    if isinstance(d, LoopSeg):
        if atom_of(d.var).id in mp:
            mp = {k: v for k, v in mp.items() if k != atom_of(d.var).id}
        return LoopSeg(d.var, subst(d.hi, mp), dim_subst(d.dim, mp))
    unsupported("dim")


def dim_index(d, pre="i"):
    """a generic index of dimension d (fresh variables with range facts): returns index"""
    if isinstance(d, Poly):
        c = d.const
        if c is not None and c == 1:
            return ZERO
        return ranged(fresh(pre, nonneg=True), d)
    if isinstance(d, FlatDim):
        return tuple(dim_index(c, pre) for c in d.comps)
    unsupported("generic index of concatenated dimension")


def dim_generic(d, pre="i"):
    """list of generic indices covering dimension d (several for concatenations)"""
    if isinstance(d, Poly) and d.const is not None and d.const <= 4:
        return [P(k) for k in range(int(d.const))]
    if isinstance(d, FlatDim) and all(isinstance(c, Poly) for c in d.comps):
        return [tuple(x) for x in itertools.product(*[dim_generic(c, pre) for c in d.comps])]
    if isinstance(d, (Poly, FlatDim)):
        return [dim_index(d, pre)]
    if isinstance(d, LoopSeg):
        i = ranged(fresh(pre, nonneg=True), d.hi)
        return [(i, x) for x in dim_generic(d.at(i), pre)]
    out = []
    for q, s in enumerate(d.segs):
        for x in dim_generic(s, pre):
            out.append((q, x))
    return out


def same_dim(a, b):
    """provably the same dimension (structurally)"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a is b or (a - b).const is None and holds(lit("eq", a - b)) and True
    if isinstance(a, FlatDim) and isinstance(b, FlatDim):
        return len(a.comps) == len(b.comps) and all(same_dim(x, y) for x, y in zip(a.comps, b.comps))
    if isinstance(a, CatDim) and isinstance(b, CatDim):
        return len(a.segs) == len(b.segs) and all(same_dim(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, LoopSeg) and isinstance(b, LoopSeg):
        if not same_dim(a.hi, b.hi):
            return False
        i = ranged(fresh("i", nonneg=True), a.hi)
        return same_dim(a.at(i), b.at(i))
    return False


def norm_dim(d):
    if isinstance(d, FlatDim):
        cs = []
        for c in d.comps:
            if c is ONE:
                continue
            cs.append(c)
        # drop unit components only when index handling stays trivial
        if len(cs) == 1 and len(d.comps) == 1:
            return cs[0]
    return d


# ============================================================================ arrays
class Buf:
    __slots__ = ("fn", "memo", "shape", "dtype", "parts", "log", "version")

    def __init__(self, shape, fn, dtype):
        self.shape, self.fn, self.dtype = shape, fn, dtype
        self.memo = {}
        self.parts = None
        self.version = 0

    def get(self, idx):
        k = idx
        r = self.memo.get(k)
        if r is None:
            r = self.fn(idx)
            self.memo[k] = r
        return r

    def set_fn(self, fn):
        CTX.journal.append((self, "fn", self.fn, self.memo))
        self.fn = fn
        self.memo = {}
        self.version += 1
        self.parts = None


def snapshot(arr):
    """immutable element function of an array at this moment"""
    b = arr.buf
    fn = b.fn
    memo = b.memo
    vm = arr.vmap

    def get(idx):
        k = vm(idx) if vm is not None else idx
        r = memo.get(k)
        if r is None:
            r = fn(k)
            memo[k] = r
        return r
    return get


class Arr:
    """view: shape_, vmap (view index -> buffer index or None for identity), vspec (for writes)"""
    __array_priority__ = 1000

    def __init__(self, shape, fn=None, dtype="f", buf=None, vmap=None, vspec=None):
        self.shape_ = tuple(shape)
        if buf is None:
            buf = Buf(self.shape_, fn, dtype)
            vspec = [("ax", k) for k in range(len(self.shape_))]
        self.buf = buf
        self.vmap = vmap
        self.vspec = vspec

    # ------------------------------------------------------------ basic
    @property
    def dtype_(self):
        return self.buf.dtype

    @property
    def dtype(self):
        return DType(self.buf.dtype)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def shape(self):
        return tuple(sc(dsize(d)) for d in self.shape_)

    @shape.setter
    def shape(self, new):
        r = reshape(self, new)
        self.shape_, self.buf, self.vmap, self.vspec = r.shape_, r.buf, r.vmap, r.vspec

    @property
    def size(self):
        r = ONE
        for d in self.shape_:
            r = r * dsize(d)
        return sc(r)

    def get(self, idx):
        return self.buf.get(self.vmap(idx) if self.vmap is not None else idx)

    def __deepcopy__(self, memo):
        r = copy_arr(self)
        memo[id(self)] = r
        return r

    def __copy__(self):
        return copy_arr(self)

    def __repr__(self):
        return "Arr%r" % (self.shape_,)

    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(Num(self.get(())), spec)
        raise TypeError("unsupported format string passed to numpy.ndarray.__format__")

    def __len__(self):
        d = dsize(self.shape_[0]).const
        if d is None:
            unsupported("len() of a symbolic array outside the verifier's builtins")
        return int(d)

    def __iter__(self):
        if not self.shape_:
            raise TypeError("iteration over a 0-d array")
        d = dsize(self.shape_[0]).const
        if d is None:
            unsupported("native iteration over a symbolic-length array")
        return iter([self[k] for k in range(int(d))])

    def __bool__(self):
        if self.ndim == 0 or self.size == 1:
            return bool(Num(poly(self)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    __hash__ = None

    def item(self, *a):
        return Num(poly(self))

    def __float__(self):
        return float(Num(poly(self)))

    def __int__(self):
        return int(Num(poly(self)))

    def __index__(self):
        return int(Num(poly(self)))

    # ------------------------------------------------------------ arithmetic
    def _b(self, o, f, dt=None):
        return elementwise(f, [self, o], dt)

    def _r(self, o, f, dt=None):
        return elementwise(f, [o, self], dt)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._r(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._r(o, lambda a, b: a - b)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._r(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._b(o, adiv, "f")
    def __rtruediv__(self, o): return self._r(o, adiv, "f")
    def __floordiv__(self, o): return self._b(o, lambda a, b: FN("floor", adiv(a, b)))
    def __mod__(self, o): return self._b(o, lambda a, b: FN("remainder", a, b))
    def __pow__(self, o): return self._b(o, ppow)
    def __rpow__(self, o): return self._r(o, ppow)
    def __neg__(self): return elementwise(lambda a: -a, [self])
    def __pos__(self): return copy_arr(self)
    def __abs__(self): return elementwise(lambda a: FN("abs", a), [self])
    def __lt__(self, o): return self._b(o, lambda a, b: IV("lt", a - b), "b")
    def __le__(self, o): return self._b(o, lambda a, b: IV("le", a - b), "b")
    def __gt__(self, o): return self._b(o, lambda a, b: IV("lt", b - a), "b")
    def __ge__(self, o): return self._b(o, lambda a, b: IV("le", b - a), "b")

    def __eq__(self, o):
        if o is None:
            return const_arr(self.shape_, ZERO, "b")
        if isinstance(o, str):
            return False
        return self._b(o, lambda a, b: IV("eq", a - b), "b")

    def __ne__(self, o):
        if o is None:
            return const_arr(self.shape_, ONE, "b")
        if isinstance(o, str):
            return True
        return self._b(o, lambda a, b: ONE - IV("eq", a - b), "b")

    def __and__(self, o): return self._b(o, lambda a, b: a * b, "b")
    __rand__ = __and__
    def __or__(self, o): return self._b(o, lambda a, b: ONE - (ONE - a) * (ONE - b), "b")
    __ror__ = __or__
    def __invert__(self): return elementwise(lambda a: ONE - a, [self], "b")
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(asarr(o), self)

    def _inplace(self, o, f):
        v = asarr(elementwise(f, [self, o]))
        if self.dtype_ == "i" and v.dtype_ == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if len(v.shape_) != len(self.shape_):
            raise ValueError("non-broadcastable output operand")
        self[...] = v
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        if self.dtype_ == "i":
            raise TypeError("No loop matching the specified signature and casting was found for ufunc divide")
        return self._inplace(o, adiv)

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        return index_get(self, key)

    def __setitem__(self, key, val):
        index_set(self, key, val)

    # ------------------------------------------------------------ methods
    def copy(self, *a, **k): return copy_arr(self)

    def astype(self, t, **k):
        dt = dtype_code(t)
        if dt == "i" and self.dtype_ == "f":
            return elementwise(trunc, [self], "i")
        r = copy_arr(self)
        r.buf.dtype = dt
        return r

    def flatten(self, *a, **k): return flatten(self)
    def ravel(self, *a, **k): return flatten(self)

    def reshape(self, *new, **k):
        if len(new) == 1 and isinstance(new[0], (tuple, list)):
            new = tuple(new[0])
        r = reshape(self, new)
        return r

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    @property
    def T(self): return transpose(self)

    def sum(self, axis=None, keepdims=False, **k): return reduce_sum(self, axis, keepdims)
    def max(self, axis=None, keepdims=False, **k): return reduce_ext("maxr", self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **k): return reduce_ext("minr", self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return reduce_mean(self, axis, keepdims)
    def prod(self, axis=None, **k): unsupported("prod")
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def all(self, axis=None): return reduce_all(self, axis)
    def any(self, axis=None): return reduce_any(self, axis)
    def dot(self, o): return matmul(self, asarr(o))
    def squeeze(self, axis=None): return squeeze(self, axis)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def argsort(self, axis=-1, **k): return argsort(self, axis)
    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, ax)

    def fill(self, v):
        self[...] = v

    def sort(self, *a, **k):
        s = self[argsort(self)]
        self[...] = s

    def tolist(self):
        from engine import SymSeq
        return SymSeq.from_arr(self)

    def round(self, decimals=0):
        return elementwise(lambda a: FN("round", a, P(decimals)), [self])

    @property
    def real(self): return self


BENIGN = {"copy", "kind", "casting", "subok", "like", "stacklevel"}


def benign(name, a, k):
    """options a library contract may leave out of account; any other is outside the contracts"""
    for n, v in k.items():
        if n == "order" and v in (None, "C", "K", "A"):
            continue
        if n == "dtype" and (v is None or dtype_code(v) == "f"):
            continue
        if n == "out" and v is None or n in BENIGN:
            continue
        if n in ("where",) and v is True:
            continue
        unsupported("option %s of %s" % (n, name))
    if any(isinstance(x, str) and x in ("F", "A", "K") for x in a):
        unsupported("memory order of %s" % name)


def _strict(cls):
    """the options a method does not name are checked"""
    import functools
    import inspect
    for n in ("copy", "astype", "flatten", "ravel", "reshape", "sum", "max", "min", "mean", "cumsum", "argsort", "sort"):
        f = getattr(cls, n, None)
        if f is None:
            continue
        known = {q for q, v in inspect.signature(f).parameters.items() if v.kind == v.POSITIONAL_OR_KEYWORD}

        def g(self, *a, _f=f, _n=n, _k=known, **k):
            benign(_n, a, {q: v for q, v in k.items() if q not in _k})
            return _f(self, *a, **k)
        setattr(cls, n, functools.wraps(f)(g))


_strict(Arr)


class DType:
    def __init__(self, c):
        self.c = c
        self.kind = c

    def __eq__(self, o):
        return dtype_code(o) == self.c

    def __hash__(self):
        return hash(self.c)


def dtype_code(t):
    if t is None:
        return "f"
    if isinstance(t, DType):
        return t.c
    if isinstance(t, str):
        if t in ("f", "i", "b"):
            return t
        if t.startswith("float") or t in ("d", "double"):
            return "f"
        if t.startswith("int"):
            return "i"
        if t.startswith("bool"):
            return "b"
    nm = getattr(t, "__name__", "")
    if nm.startswith("float") or nm in ("_float", "double", "float64"):
        return "f"
    if nm.startswith("int") or nm == "_int":
        return "i"
    if nm.startswith("bool"):
        return "b"
    unsupported("dtype %r" % (t,))


def trunc(p):
    if p.integer:
        return p
    neg = IV("lt", p)
    if neg is ZERO:
        return FN("floor", p)
    return neg * FN("ceil", p) + (ONE - neg) * FN("floor", p)


def adiv(a, b):
    return a * pinv(b)


def copy_arr(a):
    g = snapshot(a)
    r = Arr(a.shape_, g, a.dtype_)
    if a.vmap is None and a.buf.parts is not None:
        r.buf.parts = a.buf.parts
    return r


def const_arr(shape, p, dtype="f"):
    return Arr(shape, lambda idx: p, dtype)


def asarr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if isnum(x):
        p = poly(x)
        dt = "b" if isinstance(x, (bool, SBool)) else ("i" if isinstance(x, int) else "f")
        if isinstance(x, Num) and p.integer and p.const is None:
            dt = "i" if p.integer else "f"
        return Arr((), lambda idx: p, dtype or dt)
    from engine import SymSeq
    if isinstance(x, SymSeq):
        return x.to_arr()
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        if hasattr(x, "sym_len"):
            return x.to_arr()
        xs = list(x)
        if not xs:
            return Arr((ZERO,), lambda idx: ZERO, "f")
        es = [asarr(y) for y in xs]
        e0 = es[0]
        for e in es[1:]:
            if e.ndim != e0.ndim:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            for d1, d2 in zip(e0.shape_, e.shape_):
                dim_eq(d1, d2, "array() of rows with different lengths")
        dt = dtype or max((e.dtype_ for e in es), key="bif".index)
        gets = [snapshot(e) for e in es]
        return Arr((P(len(es)),) + e0.shape_, lambda idx: pick(gets, idx[0], idx[1:]), dt)
    if x is None or isinstance(x, str):
        unsupported("array of %r" % (x,))
    unsupported("asarray(%s)" % type(x).__name__)


def pick(gets, i, rest):
    """element i (Poly) of a concrete list of element functions"""
    if isinstance(i, tuple):
        unsupported("structured index into concrete axis")
    c = i.const
    if c is not None:
        k = int(c)
        if not 0 <= k < len(gets):
            unsupported("internal index out of range")
        return gets[k](rest)
    r = gets[-1](rest)
    for k in range(len(gets) - 2, -1, -1):
        e = IV("eq", i - k)
        if e is ZERO:
            continue
        r = e * gets[k](rest) + (ONE - e) * r
    return r


def dim_eq(a, b, what):
    if a is b:
        return True
    if same_dim(a, b):
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        require(lit("eq", a - b), what)
        return True
    sa, sb = dsize(a), dsize(b)
    if (sa - sb).t and not holds(lit("eq", sa - sb)):
        require(lit("eq", sa - sb), what)
    unsupported("equal sizes with different structure: %r / %r" % (a, b))


def is_one(d):
    return isinstance(d, Poly) and d is ONE


def broadcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = []
        for s in shapes:
            q = k - (n - len(s))
            if q >= 0:
                ds.append(s[q])
        d0 = None
        for d in ds:
            if is_one(d):
                continue
            if d0 is None:
                d0 = d
            else:
                if d is not d0 and not same_dim(d0, d):
                    # could still broadcast if one of them equals 1 at run time
                    if isinstance(d0, Poly) and isinstance(d, Poly):
                        require(lit("eq", d0 - d), "operands could not be broadcast together: %r and %r" % (d0, d))
                    else:
                        # a one-segment concatenation equals a plain dimension
                        dim_eq(d0, d, "operands could not be broadcast together")
                if isinstance(d0, Poly) and not isinstance(d, Poly):
                    d0 = d
        out.append(d0 if d0 is not None else ONE)
    return tuple(out)


def bidx(shape, idx):
    """index into an array of `shape` from the broadcast result index"""
    off = len(idx) - len(shape)
    return tuple(zidx(d, idx[off + k]) for k, d in enumerate(shape))


def zidx(d, i):
    if is_one(d):
        return ZERO
    return i


def elementwise(f, args, dtype=None):
    arrs = []
    allsc = True
    for a in args:
        if isinstance(a, Arr):
            allsc = False
        arrs.append(asarr(a))
    if len(arrs) == 1:
        shape = arrs[0].shape_
    else:
        shape = broadcast_shapes([a.shape_ for a in arrs])
    gets = [snapshot(a) for a in arrs]
    shs = [a.shape_ for a in arrs]
    if dtype is None:
        dtype = max((a.dtype_ for a in arrs), key="bif".index)
        if dtype == "b":
            dtype = "b"

    def fn(idx):
        return f(*[g(bidx(s, idx)) for g, s in zip(gets, shs)])
    if all(a.ndim == 0 for a in arrs) :
        p = fn(())
        if dtype == "b":
            return mkbool(cnot(cmpc("eq", p))) if p.const is None else bool(p.const)
        return Num(p)
    return Arr(shape, fn, dtype)


def ufunc(f, dtype="f"):
    def g(x, *a, **k):
        if a or k:
            unsupported("ufunc options")
        if isnum(x) and not isinstance(x, Arr):
            return Num(f(poly(x)))
        return elementwise(f, [x], dtype)
    return g


def ufunc2(f, dtype=None):
    def g(x, y, *a, **k):
        if a or k:
            unsupported("ufunc options")
        if isnum(x) and isnum(y):
            p = f(poly(x), poly(y))
            if dtype == "b":
                return bool(p.const) if p.const is not None else mkbool(cnot(cmpc("eq", p)))
            return Num(p)
        return elementwise(f, [x, y], dtype)
    return g


# ---------------------------------------------------------------------------- indexing
def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    n = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, Arr) and k.dtype_ == "b"))
    n += sum(k.ndim for k in key if isinstance(k, Arr) and k.dtype_ == "b")
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError("an index can only have a single ellipsis")
            seen = True
            out.extend([slice(None)] * (a.ndim - n))
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (a.ndim - n))
    if n > a.ndim:
        e = IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (a.ndim, n))
        e._repo = True
        raise e
    return out


def int_index(i, d, what="index out of bounds"):
    """normalise an integer index against dimension d; returns Poly or structured index"""
    if not isinstance(d, Poly):
        if isinstance(d, FlatDim):
            p = poly(i)
            c = p.const
            if c is not None and c >= 0 and len(d.comps) >= 1:
                # row-major: only indices within the last component are decidable simply
                require(lit("lt", p - d.size), what)
                last = d.comps[-1]
                if holds(lit("lt", p - last)):
                    return tuple([ZERO] * (len(d.comps) - 1) + [p])
            return flat_index(p, d)
        if isinstance(d, CatDim):
            unsupported("integer index into a concatenation")
    p = poly(i)
    if not p.integer:
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    neg = quick(lit("lt", p))
    if neg is None:
        neg = decide(lit("lt", p))
    if neg:
        q = p + d
        require(lit("le", -q), what)
        return q
    require(lit("lt", p - d), what)
    return p


def flat_index(p, d):
    """row-major multi-index of p in FlatDim d, by symbolic division"""
    out = []
    rest = p
    comps = d.comps
    for k in range(len(comps) - 1, 0, -1):
        q = FN("floor", rest / comps[k])
        out.append(rest - q * comps[k])
        rest = q
    out.append(rest)
    return tuple(reversed(out))


def slice_norm(s, d):
    """(start Poly, length dim, step int)"""
    if s.start is None and s.stop is None and s.step is None:
        return ZERO, d, 1
    step = 1 if s.step is None else int(N_(s.step).__index__())
    if not isinstance(d, Poly):
        if isinstance(d, FlatDim) and s.start is None and s.step is None:
            pass
        unsupported("slice of a structured dimension")
    if step == -1 and s.start is None and s.stop is None:
        return d - 1, d, -1
    if step < 1:
        unsupported("slice with step %d" % step)

    def clip(x, default):
        if x is None:
            return default
        p = poly(x)
        if decide_q(lit("lt", p)):
            p = p + d
            if decide_q(lit("lt", p)):
                p = ZERO
        if decide_q(lit("lt", d - p)):
            return d
        return p
    a = clip(s.start, ZERO)
    b = clip(s.stop, d)
    if decide_q(lit("lt", b - a)):
        b = a
    if step == 1:
        return a, b - a, 1
    ln = FN("floor", (b - a + (step - 1)) / step)
    return a, ln, step


def block_of(x, d, default):
    """k such that the position x of the flat dimension d is the start of its k-th block (row of the first component)"""
    if x is None:
        return default
    inner = FlatDim(d.comps[1:]).size
    p = poly(x)
    if p == ZERO:
        return ZERO
    if p == d.size:
        return d.comps[0]
    c0 = d.comps[0].const
    if c0 is not None and c0 <= 64:
        for k in range(1, int(c0)):
            if p == inner * k:
                return poly(k)
            if p == inner * (-k):
                return poly(int(c0) - k)
    return None


def flat_slice(s, d):
    """slice of a flattened dimension at block boundaries: (first block, view dimension, index map)"""
    if s.step is not None and N_(s.step).p.const != 1:
        return None
    if not all(isinstance(c, Poly) for c in d.comps) or len(d.comps) < 2:
        return None
    lo, hi = block_of(s.start, d, ZERO), block_of(s.stop, d, d.comps[0])
    if lo is None or hi is None:
        return None
    w = (hi - lo).const
    if w is None or w < 0:
        return None
    if w == 1:
        if len(d.comps) == 2:
            return lo, d.comps[1], lambda i: (lo, i)
        return lo, FlatDim(d.comps[1:]), lambda i: (lo,) + tuple(i)
    return lo, FlatDim((hi - lo,) + d.comps[1:]), lambda i: (i[0] + lo,) + tuple(i[1:])


def decide_q(c):
    r = quick(c)
    return decide(c) if r is None else r


def index_get(a, key):
    ks = norm_key(a, key)
    if any(isinstance(k, (Arr, list)) or hasattr(k, "sym_len") for k in ks):
        return fancy_get(a, ks)
    shape = []
    plan = []      # per source axis: ('fix', p) or ('ax', viewaxis, start, step)
    ax = 0
    for k in ks:
        if k is None:
            shape.append(ONE)
            continue
        d = a.shape_[ax]
        if isinstance(k, slice):
            fs = None
            if isinstance(d, FlatDim) and not (k.start is None and k.stop is None and k.step is None):
                fs = flat_slice(k, d)
            if fs is not None:
                plan.append(("blk", len(shape), fs[2]))
                shape.append(fs[1])
                ax += 1
                continue
            st, ln, step = slice_norm(k, d)
            plan.append(("ax", len(shape), st, step))
            shape.append(ln)
        elif isinstance(k, bool) or isinstance(k, SBool):
            unsupported("boolean scalar index")
        else:
            if not isnum(k):
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            plan.append(("fix", int_index(k, d)))
        ax += 1

    def m(idx):
        out = []
        for q in plan:
            if q[0] == "fix":
                out.append(q[1])
            elif q[0] == "blk":
                out.append(q[2](idx[q[1]]))
            else:
                i = idx[q[1]]
                if q[3] == 1:
                    out.append(i if q[2] is ZERO else i + q[2])
                else:
                    out.append(q[2] + i * q[3])
        return tuple(out)
    if not shape:
        return Num(a.get(m(())))
    vm = a.vmap
    vmap = m if vm is None else (lambda idx: vm(m(idx)))
    vspec = compose_spec(a.vspec, plan, shape)
    return Arr(shape, buf=a.buf, vmap=vmap, vspec=vspec)


def compose_spec(vspec, plan, shape):
    """vspec: per buffer axis ('ax', k[,start]) / ('fix', p) / ('axc', k, comp) referring to axes of the old view"""
    if vspec is None:
        return None
    out = []
    for s in vspec:
        if s[0] == "fix":
            out.append(s)
            continue
        q = plan[s[1]]
        if q[0] == "blk":
            return None
        if s[0] == "ax":
            st0 = s[2] if len(s) > 2 else ZERO
            if q[0] == "fix":
                if isinstance(q[1], tuple):
                    out.append(("fix", q[1]))
                else:
                    out.append(("fix", q[1] + st0))
            elif q[3] == 1:
                out.append(("ax", q[1], st0 + q[2]))
            elif q[3] == -1 and st0 is ZERO:
                out.append(("rev", q[1], q[2]))
            else:
                return None
        elif s[0] == "axc":
            if q[0] == "ax" and q[3] == 1 and q[2] is ZERO:
                out.append(("axc", q[1], s[2]))
            elif q[0] == "fix" and isinstance(q[1], tuple):
                out.append(("fix", q[1][s[2]]))
            else:
                return None
        else:
            return None
    return out


def index_set(a, key, val):
    ks = norm_key(a, key)
    if any(isinstance(k, (Arr, list)) or hasattr(k, "sym_len") for k in ks):
        return fancy_set(a, ks, val)
    v = index_get(a, tuple(ks))
    if isinstance(v, Num):
        # full integer index: build write directly
        tgt = []
        ax = 0
        for k in ks:
            if k is None:
                continue
            tgt.append(("fix", int_index(k, a.shape_[ax])))
            ax += 1
        spec = compose_spec(a.vspec, tgt, [])
        vshape = ()
    else:
        spec = v.vspec
        vshape = v.shape_
    if spec is None:
        unsupported("write through this kind of view")
    rhs = asarr(val)
    # broadcast rhs to vshape
    if rhs.ndim > len(vshape):
        extra = rhs.shape_[:rhs.ndim - len(vshape)]
        if not all(is_one(d) for d in extra):
            raise ValueError("could not broadcast input array into shape")
        rhs = squeeze_front(rhs, rhs.ndim - len(vshape))
    off = len(vshape) - rhs.ndim
    for q, d in enumerate(rhs.shape_):
        if not is_one(d):
            if is_one(vshape[off + q]):
                require(lit("eq", dsize(d) - ONE), "could not broadcast input array into the assigned slice")
            else:
                dim_eq(d, vshape[off + q], "could not broadcast input array from shape %r into %r" % (d, vshape[off + q]))
    rget = snapshot(rhs)
    rsh = rhs.shape_
    buf = a.buf
    old = buf.fn
    oldmemo = buf.memo
    bshape = buf.shape
    isint = buf.dtype == "i" and rhs.dtype_ == "f"
    nview = len(vshape)

    def fn(bi):
        cond = ONE
        vi = [None] * nview
        for x, s in zip(bi, spec):
            if s[0] == "fix":
                cond = cond * idx_eq(x, s[1])
                if cond is ZERO:
                    break
            elif s[0] == "ax":
                st = s[2] if len(s) > 2 else ZERO
                d = vshape[s[1]]
                if st is ZERO and not isinstance(x, Poly):
                    vi[s[1]] = x
                    continue
                y = x - st
                if not isinstance(d, Poly):
                    unsupported("write into structured dimension")
                c = (IV("le", -y)) * IV("lt", y - d)
                cond = cond * c
                vi[s[1]] = y
            elif s[0] == "rev":
                vi[s[1]] = s[2] - x
            elif s[0] == "axc":
                t = vi[s[1]]
                if t is None:
                    t = vi[s[1]] = [None] * len(vshape[s[1]].comps)
                t[s[2]] = x
        if cond is ZERO:
            r = oldmemo.get(bi)
            if r is None:
                r = oldmemo[bi] = old(bi)
            return r
        vi = tuple(tuple(t) if isinstance(t, list) else (ZERO if t is None else t) for t in vi)
        new = rget(bidx(rsh, vi))
        if isint:
            new = trunc(new)
        if cond is ONE:
            return new
        r = oldmemo.get(bi)
        if r is None:
            r = oldmemo[bi] = old(bi)
        return cond * new + (ONE - cond) * r
    buf.set_fn(fn)


def idx_eq(x, e):
    if isinstance(x, tuple):
        if not isinstance(e, tuple):
            unsupported("structured index comparison")
        r = ONE
        for p, q in zip(x, e):
            r = r * idx_eq(p, q)
        return r
    if isinstance(e, tuple):
        unsupported("structured index comparison")
    return IV("eq", x - e)


def fancy_get(a, ks):
    if len([k for k in ks if k is not None]) and any(isinstance(k, Arr) and k.dtype_ == "b" for k in ks):
        return mask_get(a, ks)
    ks = [asarr(k) if (isinstance(k, (list, Arr)) or hasattr(k, "sym_len")) else k for k in ks]
    pos = [q for q, k in enumerate(ks) if isinstance(k, Arr)]
    if len(pos) > 1 and pos != list(range(pos[0], pos[0] + len(pos))):
        unsupported("separated advanced indices")
    ish = broadcast_shapes([ks[q].shape_ for q in pos])
    iget = {q: snapshot(ks[q]) for q in pos}
    shape = []
    plan = []
    ax = 0
    put = None
    for q, k in enumerate(ks):
        if k is None:
            shape.append(ONE)
            continue
        d = a.shape_[ax]
        ax += 1
        if isinstance(k, Arr):
            if k.dtype_ == "f":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            if put is None:
                put = len(shape)
                shape.extend(ish)
            # bounds obligation on a generic element
            gi = tuple(dim_index(x) for x in k.shape_)
            p = iget[q](gi)
            if not isinstance(d, Poly):
                unsupported("fancy index into structured dimension")
            if not holds(lit("le", -p)):
                neg = quick(lit("lt", p))
                if neg:
                    require(lit("le", -(p + d)), "index out of bounds")
                else:
                    require(lit("le", -p), "index out of bounds (negative index array)")
            require(lit("lt", p - d), "index out of bounds")
            plan.append(("arr", q, k.shape_))
        elif isinstance(k, slice):
            st, ln, step = slice_norm(k, d)
            plan.append(("ax", len(shape), st, step))
            shape.append(ln)
        else:
            plan.append(("fix", int_index(k, d)))
    g = snapshot(a)
    ni = len(ish)

    def fn(idx):
        out = []
        for s in plan:
            if s[0] == "fix":
                out.append(s[1])
            elif s[0] == "ax":
                i = idx[s[1]]
                out.append(s[2] + i * s[3] if not (s[2] is ZERO and s[3] == 1) else i)
            else:
                out.append(iget[s[1]](bidx(s[2], idx[put:put + ni])))
        return g(tuple(out))
    return Arr(shape, fn, a.dtype_)


declare("nth", integer=True, nonneg=True)     # nth(lam cond, k): index of the k-th true element


def _nth_num(env, bnd, lam, k):
    t = prover.table(lam, env, bnd)
    k = int(prover.ev(k, env, bnd))
    o = [q for q, x in enumerate(t) if x]
    if not 0 <= k < len(o):
        raise prover.Reject()
    return o[k]


prover.NUM["nth"] = _nth_num
T.UF["nth"]["facts"] = lambda lam, k: [lit("le", -FN("nth", lam, k)), lit("lt", FN("nth", lam, k) - lam.his[0])]


def mask_get(a, ks):
    real = [k for k in ks if k is not None]
    if isinstance(real[0], Arr) and real[0].dtype_ == "b" and all(isinstance(k, slice) and k == slice(None) for k in real[1:]):
        m = real[0]
        if m.ndim != 1:
            unsupported("multi-dimensional boolean mask")
        dim_eq(m.shape_[0], a.shape_[0], "boolean index did not match indexed array")
        d = m.shape_[0]
        if not isinstance(d, Poly):
            unsupported("mask over structured dimension")
        mg = snapshot(m)
        i = ranged(fresh("k", nonneg=True), d)
        cond = mg((i,))
        if cond is ONE:
            return copy_arr(a)
        if d.const is not None and d.const <= 64:
            flags = [mg((P(q),)) for q in range(int(d.const))]
            if all(x.const is not None for x in flags):
                keep = [q for q, x in enumerate(flags) if x.const]
                return a[asarr([q for q in keep], "i")] if keep else a[0:0]
        lam = LAM([i], [d], cond)
        n = SUM(i, d, cond)
        g = snapshot(a)
        return Arr((n,) + a.shape_[1:], lambda idx: g((FN("nth", lam, idx[0]),) + tuple(idx[1:])), a.dtype_)
    unsupported("boolean mask combined with other indices")


def fancy_set(a, ks, val):
    if len(ks) >= 1 and isinstance(ks[0], Arr) and ks[0].dtype_ == "b" and ks[0].ndim == a.ndim:
        v = asarr(val)
        if v.ndim != 0:
            unsupported("masked assignment of an array")
        m = ks[0]
        r = elementwise(lambda c, x, y: c * x + (ONE - c) * y, [m, v, copy_arr(a)], a.dtype_)
        a[...] = r
        return
    unsupported("assignment through index arrays")


# ---------------------------------------------------------------------------- shape operations
def squeeze_front(a, n):
    g = snapshot(a)
    return Arr(a.shape_[n:], lambda idx: g((ZERO,) * n + tuple(idx)), a.dtype_)


def squeeze(a, axis=None):
    a = asarr(a)
    axes = range(a.ndim) if axis is None else [axis if axis >= 0 else axis + a.ndim]
    key = tuple(0 if (k in axes and is_one(a.shape_[k])) else slice(None) for k in range(a.ndim))
    return a[key]


def transpose(a, axes=None):
    a = asarr(a)
    n = a.ndim
    if axes is None:
        axes = tuple(reversed(range(n)))
    axes = [int(x) % n for x in axes]
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    shape = [a.shape_[x] for x in axes]
    inv = [axes.index(k) for k in range(n)]
    vm = a.vmap

    def m(idx):
        j = tuple(idx[inv[k]] for k in range(n))
        return vm(j) if vm is not None else j
    spec = None
    if a.vspec is not None:
        spec = []
        for s in a.vspec:
            if s[0] == "fix":
                spec.append(s)
            else:
                spec.append((s[0], inv[s[1]]) + tuple(s[2:]))
    return Arr(shape, buf=a.buf, vmap=m, vspec=spec)


def comps_of(shape):
    out = []
    for d in shape:
        if isinstance(d, FlatDim):
            out.extend(d.comps)
        elif isinstance(d, Poly):
            out.append(d)
        else:
            unsupported("reshape of concatenated dimension")
    return out


def flatten(a):
    a = asarr(a)
    if a.ndim == 1:
        return copy_arr(a)
    return copy_arr(reshape(a, (-1,)))


def reshape(a, new):
    a = asarr(a)
    if not isinstance(new, (tuple, list)):
        new = (new,)
    if len(new) == 1 and isinstance(new[0], (tuple, list)):
        new = new[0]
    if len(new) == a.ndim and all(not isinstance(d, (Poly, FlatDim)) for d in a.shape_):
        return a
    # single concatenated axis kept as is
    if a.ndim == 1 and isinstance(a.shape_[0], CatDim):
        if len(new) == 1:
            return a
        unsupported("reshape of concatenated dimension")
    comps = comps_of(a.shape_)
    total = ONE
    for c in comps:
        total = total * c
    tgt = []
    hole = None
    known = ONE
    for k, x in enumerate(new):
        p = poly(x)
        if p.const is not None and p.const == -1:
            hole = k
            tgt.append(None)
        else:
            tgt.append(p)
            known = known * p
    if hole is not None:
        tgt[hole] = total / known if total.t else ZERO
        if len(new) == 1:
            tgt[0] = total
    prod = ONE
    for t in tgt:
        prod = prod * t
    if (prod - total).t and not holds(lit("eq", prod - total)):
        require(lit("eq", prod - total), "cannot reshape array of size %r into shape %r" % (total, tuple(tgt)))
    # match: greedily group components
    src = list(comps)
    groups = []     # per target axis list of source component numbers
    k = 0
    parts = list(range(len(src)))
    for ti, t in enumerate(tgt):
        g = []
        acc = ONE
        while True:
            if g or t is ONE:
                if acc is t or same_dim(acc, t):
                    # absorb nothing more
                    break
            if k >= len(src):
                break
            acc = acc * src[k]
            g.append(k)
            k += 1
            if t is not ONE and (acc is t or same_dim(acc, t)):
                break
        if not (acc is t or same_dim(acc, t)):
            unsupported("reshape %r -> %r does not match the dimension structure" % (tuple(comps), tuple(tgt)))
        groups.append(g)
    # leftover unit components
    while k < len(src):
        if src[k] is ONE:
            if groups:
                groups[-1].append(k)
            k += 1
        else:
            unsupported("reshape leftover")
    shape = []
    for g, t in zip(groups, tgt):
        if len(g) == 0:
            shape.append(ONE)
        elif len(g) == 1:
            shape.append(src[g[0]])
        else:
            nz = [x for x in g if src[x] is not ONE]
            if len(nz) == 0:
                shape.append(ONE)
            elif len(nz) == 1:
                shape.append(src[nz[0]])
            else:
                shape.append(FlatDim([src[x] for x in nz]))
    # index map new -> component list -> old index
    where = {}
    for ti, g in enumerate(groups):
        nz = [x for x in g if src[x] is not ONE]
        for q, x in enumerate(nz):
            where[x] = (ti, q, len(nz))

    oldshape = a.shape_     # a itself may be re-shaped in place later

    def m(idx):
        vals = []
        for x in range(len(src)):
            w = where.get(x)
            if w is None:
                vals.append(ZERO)
            else:
                i = idx[w[0]]
                if w[2] > 1 and isinstance(i, Poly):
                    i = flat_index(i, shape[w[0]])
                vals.append(i if w[2] == 1 else i[w[1]])
        out = []
        p = 0
        for d in oldshape:
            if isinstance(d, FlatDim):
                out.append(tuple(vals[p:p + len(d.comps)]))
                p += len(d.comps)
            else:
                out.append(vals[p])
                p += 1
        return tuple(out)
    vm = a.vmap
    vmap = m if vm is None else (lambda idx: vm(m(idx)))
    # write spec
    spec = None
    if a.vspec is not None:
        spec = []
        start = []
        p = 0
        for d in a.shape_:
            start.append(p)
            p += len(d.comps) if isinstance(d, FlatDim) else 1
        for s in a.vspec:
            if s[0] == "fix":
                spec.append(s)
                continue
            if s[0] == "ax" and (len(s) < 3 or s[2] is ZERO):
                d = a.shape_[s[1]]
                if isinstance(d, FlatDim):
                    spec = None
                    break
                w = where.get(start[s[1]])
            elif s[0] == "axc":
                w = where.get(start[s[1]] + s[2])
            else:
                spec = None
                break
            if w is None:
                spec.append(("fix", ZERO))
            elif w[2] == 1:
                spec.append(("ax", w[0]))
            else:
                spec.append(("axc", w[0], w[1]))
    return Arr(shape, buf=a.buf, vmap=vmap, vspec=spec)


def norm_axis(a, axis):
    if axis is None:
        return None
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(int(x) % a.ndim for x in axis))
    ax = int(axis)
    if not -a.ndim <= ax < a.ndim:
        e = ValueError("axis %d is out of bounds for array of dimension %d" % (ax, a.ndim))
        e._repo = True
        raise e
    return (ax % a.ndim,)


def sum_dim(d, body):
    """sum over a dimension; body: index -> Poly"""
    if isinstance(d, Poly):
        c = d.const
        if c is not None and c.denominator == 1 and c <= 64:
            r = ZERO
            for k in range(int(c)):
                r = r + body(P(k))
            return r
        i = ranged(fresh("s", nonneg=True), d)
        return SUM(i, d, body(i))
    if isinstance(d, FlatDim):
        def rec(k, acc):
            if k == len(d.comps):
                return body(tuple(acc))
            return sum_dim(d.comps[k], lambda i: rec(k + 1, acc + [i]))
        return rec(0, [])
    if isinstance(d, CatDim):
        r = ZERO
        for q, s in enumerate(d.segs):
            r = r + sum_dim(s, lambda i, q=q: body((q, i)))
        return r
    if isinstance(d, LoopSeg):
        i = ranged(fresh("s", nonneg=True), d.hi)
        return SUM(i, d.hi, sum_dim(d.at(i), lambda j: body((i, j))))
    unsupported("sum over dimension")


def reduce_sum(a, axis=None, keepdims=False):
    a = asarr(a)
    if a.ndim == 0:
        return Num(a.get(()))
    axes = norm_axis(a, axis)
    if axes is None:
        axes = tuple(range(a.ndim))
    g = snapshot(a)
    keep = [k for k in range(a.ndim) if k not in axes]
    shape = [a.shape_[k] for k in keep]
    if keepdims:
        shape = [ONE if k in axes else a.shape_[k] for k in range(a.ndim)]

    def fn(idx):
        full = [None] * a.ndim
        if keepdims:
            for k in keep:
                full[k] = idx[k]
        else:
            for q, k in enumerate(keep):
                full[k] = idx[q]

        def rec(q):
            if q == len(axes):
                return g(tuple(full))
            k = axes[q]

            def body(i):
                full[k] = i
                return rec(q + 1)
            return sum_dim(a.shape_[k], body)
        return rec(0)
    if not shape:
        return Num(fn(()))
    return Arr(shape, fn, "i" if a.dtype_ in "bi" else "f")


def reduce_mean(a, axis=None, keepdims=False):
    a = asarr(a)
    axes = norm_axis(a, axis)
    n = ONE
    for k in (range(a.ndim) if axes is None else axes):
        n = n * dsize(a.shape_[k])
    return reduce_sum(a, axis, keepdims) / Num(n)


def reduce_ext(name, a, axis=None, keepdims=False):
    a = asarr(a)
    if a.ndim == 0:
        return Num(a.get(()))
    axes = norm_axis(a, axis)
    if axes is None:
        axes = tuple(range(a.ndim))
    for k in axes:
        d = dsize(a.shape_[k])
        if not holds(lit("lt", -d)):
            require(lit("lt", -d), "zero-size array to reduction operation")
    g = snapshot(a)
    keep = [k for k in range(a.ndim) if k not in axes]
    shape = [a.shape_[k] for k in keep]
    if keepdims:
        shape = [ONE if k in axes else a.shape_[k] for k in range(a.ndim)]

    def fn(idx):
        full = [None] * a.ndim
        if keepdims:
            for k in keep:
                full[k] = idx[k]
        else:
            for q, k in enumerate(keep):
                full[k] = idx[q]
        cs = []
        for k in axes:
            d = a.shape_[k]
            if isinstance(d, Poly):
                cs.append([(k, None, d)])
            elif isinstance(d, FlatDim):
                cs.append([(k, q, c) for q, c in enumerate(d.comps)])
            else:
                unsupported("extremum over concatenated dimension")
        vs, hs = [], []
        for grp in cs:
            tup = []
            for k, q, d in grp:
                c = d.const
                v = ranged(fresh("m", nonneg=True), d)
                vs.append(v)
                hs.append(d)
                tup.append(v)
            full[grp[0][0]] = tup[0] if grp[0][1] is None else tuple(tup)
        return EXT(name, vs, hs, g(tuple(full)))
    if not shape:
        return Num(fn(()))
    return Arr(shape, fn, a.dtype_)


def EXT(name, vs, hs, body):
    """max/min over index variables; concrete dims are expanded by comparison; monotone bodies reduce to an end"""
    ids = {atom_of(v).id for v in vs}
    if body.free.isdisjoint(ids):
        return body
    # drop variables that do not occur
    keep = [(v, h) for v, h in zip(vs, hs) if atom_of(v).id in body.free]
    if len(keep) == 1:
        v, h = keep[0]
        vid = atom_of(v).id
        step = subst(body, {vid: v + 1}) - body
        # v+1 stays in range for v < h-1
        n = FACTS.mark()
        try:
            FACTS.push(lit("lt", v + 1 - h))
            up = nonneg_struct(step) or (step.t and len(step.t) <= 30 and holds(lit("le", -step), 300))
            dn = (not up) and (nonneg_struct(-step) or (len(step.t) <= 30 and holds(lit("le", step), 300)))
        finally:
            FACTS.reset(n)
        if up or dn:
            last = h - 1
            end = (up and name == "maxr") or (dn and name == "minr")
            return subst(body, {vid: last if end else ZERO})
    vs2 = [v for v, h in keep]
    hs2 = [h for v, h in keep]
    return FN(name, LAM(vs2, hs2, body))


def reduce_all(a, axis=None):
    a = asarr(a)
    s = reduce_sum(elementwise(lambda x: IV("eq", x), [a], "i"), axis)
    return s == 0


def reduce_any(a, axis=None):
    a = asarr(a)
    s = reduce_sum(elementwise(lambda x: ONE - IV("eq", x), [a], "i"), axis)
    return s != 0


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim > 1:
            a = flatten(a)
        axis = 0
    ax = norm_axis(a, axis)[0]
    d = a.shape_[ax]
    if not isinstance(d, Poly):
        unsupported("cumsum over structured dimension")
    g = snapshot(a)

    def fn(idx):
        t = idx[ax]
        c = t.const
        if c is not None:
            r = ZERO
            for k in range(int(c) + 1):
                r = r + g(tuple(idx[:ax]) + (P(k),) + tuple(idx[ax + 1:]))
            return r
        s = ranged(fresh("s", nonneg=True), t + 1)
        n = FACTS.mark()
        FACTS.push(cand(lit("le", -t), lit("lt", t - d)))
        try:
            return SUM(s, t + 1, g(tuple(idx[:ax]) + (s,) + tuple(idx[ax + 1:])))
        finally:
            FACTS.reset(n)
    return Arr(a.shape_, fn, a.dtype_ if a.dtype_ != "b" else "i")


def concatenate(seq, axis=0):
    arrs = [asarr(x) for x in seq]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    n = arrs[0].ndim
    if axis is None:
        arrs = [flatten(x) for x in arrs]
        axis = 0
        n = 1
    if n == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    for a in arrs:
        if a.ndim != n:
            raise ValueError("all the input array dimensions must match")
    ax = int(axis) % n
    for a in arrs[1:]:
        for k in range(n):
            if k != ax:
                dim_eq(arrs[0].shape_[k], a.shape_[k], "all the input array dimensions except for the concatenation axis must match exactly")
    gets = [snapshot(a) for a in arrs]
    dims = [a.shape_[ax] for a in arrs]
    dt = max((a.dtype_ for a in arrs), key="bif".index)
    # drop empty parts
    if n == 1 and ax == 0:
        nz = [k for k, d in enumerate(dims) if not (isinstance(d, Poly) and d is ZERO)]
        if len(nz) == 1:
            a = arrs[nz[0]]
            r = copy_arr(a)
            r.buf.dtype = dt
            r.buf.parts = parts_of(a)
            return r
        if not nz:
            return Arr((ZERO,), lambda idx: ZERO, dt)
        gets = [gets[k] for k in nz]
        dims = [dims[k] for k in nz]
        arrs = [arrs[k] for k in nz]
    if all(isinstance(d, Poly) for d in dims):
        offs = [ZERO]
        for d in dims:
            offs.append(offs[-1] + d)

        def fn(idx):
            i = idx[ax]
            r = None
            for k in range(len(dims) - 1, -1, -1):
                c = ONE if k == 0 else IV("le", offs[k] - i)      # offs[k] <= i
                hi = IV("lt", i - offs[k + 1]) if k < len(dims) - 1 else ONE
                if c is ZERO:
                    continue
                if r is None and hi is ZERO:
                    continue
                x = gets[k](tuple(idx[:ax]) + (i - offs[k],) + tuple(idx[ax + 1:]))
                if r is None:
                    r = x if True else r
                    if c is ONE:
                        return r
                    rc = c
                    continue
                r = rc * r + (ONE - rc) * x
                rc = c
                if c is ONE:
                    return r
            return r if r is not None else ZERO
        shape = list(arrs[0].shape_)
        shape[ax] = offs[-1]
        out = Arr(shape, fn, dt)
    else:
        if n != 1:
            unsupported("concatenation of structured dimensions in 2D")
        segs = []
        sget = []
        for d, g in zip(dims, gets):
            if isinstance(d, CatDim):
                for q, s in enumerate(d.segs):
                    segs.append(s)
                    sget.append((g, q))
            else:
                segs.append(d)
                sget.append((g, None))

        def fn(idx):
            k, i = idx[0]
            g, q = sget[k]
            return g((i,)) if q is None else g(((q, i),))
        out = Arr([CatDim(segs)], fn, dt)
    if n == 1:
        ps = []
        for a in arrs:
            ps.extend(parts_of(a))
        out.buf.parts = ps
    return out


def parts_of(a):
    if a.vmap is None and a.buf.parts is not None:
        return list(a.buf.parts)
    return [(a.shape_[0], snapshot(a), a.buf if a.vmap is None else None)]


def stack(seq, axis=0):
    arrs = [asarr(x) for x in seq]
    n = arrs[0].ndim + 1
    ax = int(axis) % n
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim:
            raise ValueError("all input arrays must have the same shape")
        for d1, d2 in zip(arrs[0].shape_, a.shape_):
            dim_eq(d1, d2, "all input arrays must have the same shape")
    gets = [snapshot(a) for a in arrs]
    shape = list(arrs[0].shape_)
    shape.insert(ax, P(len(arrs)))
    dt = max((a.dtype_ for a in arrs), key="bif".index)
    return Arr(shape, lambda idx: pick(gets, idx[ax], tuple(idx[:ax]) + tuple(idx[ax + 1:])), dt)


def vstack(seq):
    arrs = []
    for x in seq:
        x = asarr(x)
        if x.ndim == 0:
            x = x_expand(x, 2)
        elif x.ndim == 1:
            g = snapshot(x)
            x = Arr((ONE,) + x.shape_, lambda idx, g=g: g(tuple(idx[1:])), x.dtype_)
        arrs.append(x)
    if all(isinstance(a.shape_[0], Poly) and a.shape_[0] is ONE for a in arrs):
        rows = []
        for a in arrs:
            g = snapshot(a)
            rows.append(Arr(a.shape_[1:], lambda idx, g=g: g((ZERO,) + tuple(idx)), a.dtype_))
        return stack(rows)
    return concatenate(arrs, 0)


def x_expand(x, n):
    g = snapshot(x)
    return Arr((ONE,) * n, lambda idx: g(()), x.dtype_)


def hstack(seq):
    arrs = [asarr(x) for x in seq]
    arrs = [x_expand(x, 1) if x.ndim == 0 else x for x in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None and a.ndim != 1:
        a = flatten(a)
        axis = 0
    ax = norm_axis(a, 0 if axis is None else axis)[0]
    k = poly(n)
    d = a.shape_[ax]
    g = snapshot(a)
    if is_one(d):
        shape = list(a.shape_)
        shape[ax] = k
        return Arr(shape, lambda idx: g(tuple(idx[:ax]) + (ZERO,) + tuple(idx[ax + 1:])), a.dtype_)
    comps = list(d.comps) if isinstance(d, FlatDim) else [d]
    shape = list(a.shape_)
    shape[ax] = FlatDim(comps + [k])

    def fn(idx):
        i = idx[ax]
        j = i[:-1]
        return g(tuple(idx[:ax]) + ((j[0] if len(comps) == 1 else tuple(j)),) + tuple(idx[ax + 1:]))
    return Arr(shape, fn, a.dtype_)


def tile(a, n):
    a = asarr(a)
    if isinstance(n, (tuple, list)):
        if len(n) == 2 and a.ndim == 1:
            g = snapshot(a)
            r0 = poly(n[0])
            if poly(n[1]) is ONE:
                return Arr((r0, a.shape_[0]), lambda idx: g((idx[1],)), a.dtype_)
        unsupported("tile")
    if a.ndim != 1:
        unsupported("tile of %d-d" % a.ndim)
    g = snapshot(a)
    return Arr((FlatDim([poly(n)] + (list(a.shape_[0].comps) if isinstance(a.shape_[0], FlatDim) else [a.shape_[0]])),),
               lambda idx: g((idx[0][1] if len(idx[0]) == 2 else tuple(idx[0][1:]),)), a.dtype_)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        dim_eq(a.shape_[1], b.shape_[0], "matmul: dimension mismatch")
        return reduce_sum(a * b, 1)
    ga, gb = snapshot(a), snapshot(b)
    if a.ndim == 1 and b.ndim == 2:
        dim_eq(a.shape_[0], b.shape_[0], "matmul: dimension mismatch")
        return Arr((b.shape_[1],), lambda idx: sum_dim(a.shape_[0], lambda k: ga((k,)) * gb((k, idx[0]))))
    if a.ndim == 2 and b.ndim == 2:
        dim_eq(a.shape_[1], b.shape_[0], "matmul: dimension mismatch")
        return Arr((a.shape_[0], b.shape_[1]),
                   lambda idx: sum_dim(a.shape_[1], lambda k: ga((idx[0], k)) * gb((k, idx[1]))))
    if a.ndim >= 2 and b.ndim >= 2:
        sh = broadcast_shapes([a.shape_[:-2], b.shape_[:-2]])
        dim_eq(a.shape_[-1], b.shape_[-2], "matmul: dimension mismatch")
        return Arr(sh + (a.shape_[-2], b.shape_[-1]),
                   lambda idx: sum_dim(a.shape_[-1], lambda k: ga(bidx(a.shape_[:-2], idx[:-2]) + (idx[-2], k)) *
                                       gb(bidx(b.shape_[:-2], idx[:-2]) + (k, idx[-1]))))
    unsupported("matmul")


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        unsupported("einsum without a string")
    spec = spec.replace(" ", "")
    if "..." in spec:
        unsupported("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(",")
    arrs = [asarr(o) for o in ops]
    if len(ins) != len(arrs):
        raise ValueError("einsum: number of operands")
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError("einstein sum subscripts string does not match the number of dimensions")
        for l, d in zip(s, a.shape_):
            if l in dims:
                if not is_one(d) or is_one(dims[l]):
                    dim_eq(dims[l], d, "einsum: operands could not be broadcast together")
            else:
                dims[l] = d
    gets = [snapshot(a) for a in arrs]
    summed = [l for l in dims if l not in out]

    def fn(idx):
        env = {l: i for l, i in zip(out, idx)}

        def rec(k):
            if k == len(summed):
                r = ONE
                for s, g in zip(ins, gets):
                    r = r * g(tuple(env[l] for l in s))
                return r

            def body(i):
                env[summed[k]] = i
                return rec(k + 1)
            return sum_dim(dims[summed[k]], body)
        return rec(0)
    dt = max((a.dtype_ for a in arrs), key="bif".index)
    if not out:
        return Num(fn(()))
    return Arr([dims[l] for l in out], fn, dt)


def argsort(a, *args, **k):
    a = asarr(a)
    if a.ndim != 1 or not isinstance(a.shape_[0], Poly):
        unsupported("argsort")
    d = a.shape_[0]
    g = snapshot(a)
    i = ranged(fresh("k", nonneg=True), d)
    lam = LAM([i], [d], g((i,)))
    return Arr((d,), lambda idx: FN("argsort", lam, idx[0]), "i")


T.UF["argsort"]["facts"] = lambda lam, k: [lit("le", -FN("argsort", lam, k)), lit("lt", FN("argsort", lam, k) - lam.his[0])]


def lam_of(a):
    """1-d array as a lambda"""
    a = asarr(a)
    if a.ndim != 1 or not isinstance(a.shape_[0], Poly):
        unsupported("lambda of a %d-d array" % a.ndim)
    d = a.shape_[0]
    g = snapshot(a)
    i = ranged(fresh("k", nonneg=True), d)
    return LAM([i], [d], g((i,)))


def interp(x, xp, fp, *rest, **k):
    if rest or k:
        unsupported("interp with left/right/period")
    xp, fp = asarr(xp), asarr(fp)
    if xp.ndim != 1 or fp.ndim != 1:
        raise ValueError("object too deep for desired array")
    dim_eq(xp.shape_[0], fp.shape_[0], "fp and xp are not of the same length")
    lx, lf = lam_of(xp), lam_of(fp)
    knots = values = None
    n = xp.shape_[0].const if isinstance(xp.shape_[0], Poly) else None
    if n is not None and 0 < n <= 64:
        ks = [xp.get((P(i),)).const for i in range(int(n))]
        if all(k is not None for k in ks) and all(p < q for p, q in zip(ks, ks[1:])):
            knots = ks
            values = [fp.get((P(i),)) for i in range(int(n))]

    def at(v):
        """with known ascending knots and a known position: the segment's straight line, as numpy defines it"""
        c = v.const if knots else None
        if c is None:
            return FN("interp", v, lx, lf)
        if c <= knots[0]:
            return values[0]
        if c >= knots[-1]:
            return values[-1]
        i = max(q for q in range(len(knots)) if knots[q] <= c)
        return values[i] + (values[i + 1] - values[i]) * P((c - knots[i]) / (knots[i + 1] - knots[i])) if c != knots[i] else values[i]
    if isnum(x):
        return Num(at(poly(x)))
    return elementwise(at, [x], "f")


BINCOUNT_LEN = None


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if x.ndim != 1:
        raise ValueError("object too deep for desired array")
    d = x.shape_[0]
    g = snapshot(x)
    wg = None
    if weights is not None:
        w = asarr(weights)
        if w.ndim != 1:
            raise ValueError("object too deep for desired array")
        # same flattened size; the structures may differ in unit grouping
        if not same_dim(w.shape_[0], d):
            dim_eq(d, w.shape_[0], "The weights and list don't have the same length.")
        wg = snapshot(w)
    gi = dim_index(d)
    ln = BINCOUNT_LEN(x) if BINCOUNT_LEN else None
    if ln is not None and poly(minlength).const != 0:
        m = poly(minlength)
        if not holds(lit("le", m - ln)):
            ln = IV("lt", ln - m) * m + (ONE - IV("lt", ln - m)) * ln
    if ln is None:
        # length = max(x)+1
        ln = poly(reduce_ext("maxr", x)) + 1
        if poly(minlength).const != 0:
            m = poly(minlength)
            if holds(lit("le", ln - m)):
                ln = m
            elif not holds(lit("le", m - ln)):
                ln = IV("lt", ln - m) * m + (ONE - IV("lt", ln - m)) * ln
    return Arr((ln,), lambda idx: sum_dim(d, lambda i: IV("eq", g((i,)) - idx[0]) * (wg((i,)) if wg else ONE)),
               "f" if wg else "i")


def inv(a):
    a = asarr(a)
    if a.ndim != 2:
        unsupported("inverse of a stack")
    n = dsize(a.shape_[0]).const
    if n is None or n > 3:
        unsupported("inverse of a symbolic-size matrix")
    n = int(n)
    g = snapshot(a)
    m = [[g((P(i), P(j))) for j in range(n)] for i in range(n)]
    if n == 3 and any(x.const is None for r in m for x in r):
        fl = [x for r in m for x in r]
        return asarr([[Num(FN("inv3", P(i), P(j), *fl)) for j in range(3)] for i in range(3)], "f")
    return _inv_explicit(m)


def inv_entry(i, j, *fl):
    """entry of the inverse of a 3x3 matrix, from its nine entries"""
    m = [list(fl[3 * r:3 * r + 3]) for r in range(3)]
    sub = [[m[r][c] for c in range(3) if c != int(i.const)] for r in range(3) if r != int(j.const)]
    return det_of(sub) * ((-1) ** (int(i.const) + int(j.const))) * pinv(det_of(m))


def _inv_explicit(m):
    n = len(m)
    dt = det_of(m)
    di = pinv(dt)

    def cof(i, j):
        sub = [[m[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
        return det_of(sub) * ((-1) ** (i + j))
    if n == 1:
        vals = [[di]]
    else:
        vals = [[cof(j, i) * di for j in range(n)] for i in range(n)]
    return asarr([[Num(v) for v in row] for row in vals], "f")


def det_of(m):
    n = len(m)
    if n == 0:
        return ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if n != 1 or k:
        unsupported("diff n>1")
    ax = norm_axis(a, axis)[0]
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[ax] = slice(1, None)
    lo[ax] = slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


def cross(a, b, axis=-1, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("cross: at least one array has zero dimension")
    ax = -1 if not k else None
    axisa, axisb, axisc = k.get("axisa", axis), k.get("axisb", axis), k.get("axisc", axis)
    a = moveaxis(a, axisa, -1)
    b = moveaxis(b, axisb, -1)
    if dsize(a.shape_[-1]).const != 3 or dsize(b.shape_[-1]).const != 3:
        unsupported("cross of non 3-vectors")
    c = [a[..., i] for i in range(3)]
    d = [b[..., i] for i in range(3)]
    r = [c[1] * d[2] - c[2] * d[1], c[2] * d[0] - c[0] * d[2], c[0] * d[1] - c[1] * d[0]]
    if all(isinstance(x, Num) for x in r):
        return asarr(r)
    out = stack([asarr(x) for x in r], axis=-1)
    return moveaxis(out, -1, axisc)


def moveaxis(a, s, t):
    a = asarr(a)
    n = a.ndim
    s, t = int(s) % n, int(t) % n
    if s == t:
        return a
    order = [k for k in range(n) if k != s]
    order.insert(t, s)
    return transpose(a, order)


def norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        unsupported("norm ord")
    a = asarr(a)
    if ord == 2 and axis is None and a.ndim > 1:
        unsupported("spectral norm")
    s = reduce_sum(a * a, axis, keepdims)
    return sqrt_(s)


sqrt_ = ufunc(lambda p: ppow(p, Fr(1, 2)))


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    arrs = [asarr(x) for x in xs]
    arrs = [x_expand(a, 1) if a.ndim == 0 else a for a in arrs]
    n = len(arrs)
    dims = [a.shape_[0] for a in arrs]
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shape = [dims[k] for k in order]
    out = []
    for q, a in enumerate(arrs):
        g = snapshot(a)
        pos = order.index(q)
        if sparse:
            sh = [ONE] * n
            sh[pos] = dims[q]
            out.append(Arr(sh, lambda idx, g=g, pos=pos: g((idx[pos],)), a.dtype_))
        else:
            out.append(Arr(shape, lambda idx, g=g, pos=pos: g((idx[pos],)), a.dtype_))
    return out


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
    n = poly(num)
    if not n.integer:
        raise TypeError("'float' object cannot be interpreted as an integer")
    a, b = poly(start), poly(stop)
    if endpoint:
        # n == 1 gives [start]
        if n.const is not None:
            step = (b - a) / (n - 1) if n.const > 1 else ZERO
        else:
            if not holds(lit("lt", 1 - n)):
                if decide_q(lit("le", n - 1)):
                    step = ZERO
                else:
                    step = (b - a) / (n - 1)
            else:
                step = (b - a) / (n - 1)
    else:
        step = (b - a) / n
    r = Arr((n,), lambda idx: a + idx[0] * step, "f")
    r.buf.parts = None
    return (r, Num(step)) if retstep else r


def arange(*args, **k):
    if set(k) - {"step", "dtype"}:
        unsupported("arange options")
    args = [x for x in args]
    step = poly(k.get("step", 1))
    if len(args) == 1:
        a, b = ZERO, poly(args[0])
    elif len(args) >= 2:
        a, b = poly(args[0]), poly(args[1])
        if len(args) >= 3:
            step = poly(args[2])
    if a.integer and b.integer and step is ONE:
        n = b - a
        if n.const is not None:
            n = P(max(0, int(n.const)))
        elif not holds(lit("le", -n)):
            if decide_q(lit("lt", n)):
                n = ZERO
        return Arr((n,), lambda idx: a + idx[0], "i")
    # machine arange has ceil((b-a)/step) elements, up to rounding: the exact count is treated as unknown within
    # one when (b-a)/step is not decided; exact-real semantics here (rounding excluded, see assumptions)
    q = (b - a) / step
    n = FN("ceil", q)
    if n.const is None:
        if not holds(lit("le", -n)):
            if decide_q(lit("lt", n)):
                n = ZERO
    else:
        n = P(max(0, int(n.const)))
    return Arr((n,), lambda idx: a + idx[0] * step, "f" if not (a.integer and step.integer and b.integer) else "i")
