"""Contracts of the libraries the repository calls (trusted base; validated against the real libraries by selftest)."""
import os
import re
import types
import inspect
import itertools
import copy as _copy
import sys as _sys
from terms import *
import terms as T
from ctx import CTX, unsupported, require, decide, quick, Fault
from prover import FACTS, holds
import prover
from sym import *
import sym
import engine
from engine import VList, VDict, SymSeq, asseq, Poison, replace_fn, mentions


class Lib:
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        unsupported("%s.%s is outside the verifier's library contracts" % (self._name, n))

    def __deepcopy__(self, m):
        return self


class Stub:
    """library without observable effect on the properties (plotting, progress...)"""

    def __init__(self, name="stub"):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Stub(self._n + "." + n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        if self._n.endswith(".subplots"):
            return Stub("figure"), Stub("axes")
        return Stub(self._n + "()")

    def __getitem__(self, k):
        return Stub(self._n + "[]")

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter(())

    def __deepcopy__(self, m):
        return self


# ---------------------------------------------------------------------------- numpy
_garb = [0]


class LibFn:
    """library function under contract: options the contract does not name are checked, out= is written"""

    def __init__(self, name, f):
        self.name, self.f, self.__name__ = name, f, name
        ps = inspect.signature(f).parameters.values()
        self.known = {q.name for q in ps if q.kind in (q.POSITIONAL_OR_KEYWORD, q.KEYWORD_ONLY)}
        self.allk = name in ALLK

    def __call__(self, *a, **k):
        out = None
        if "out" in k and "out" not in self.known:
            out = k.pop("out")
            if isinstance(out, tuple) and len(out) == 1:
                out = out[0]
        extra = {q: v for q, v in k.items() if q not in self.known}
        if not self.allk:
            benign(self.name, a[1:], extra)
            for q in extra:
                del k[q]
        elif "order" in k:
            benign(self.name, (), {"order": k["order"]})
        r = self.f(*a, **k)
        if out is None:
            return r
        if not isinstance(out, Arr):
            raise TypeError("return arrays must be of ArrayType")
        if out.ndim != getattr(r, "ndim", 0):
            unsupported("out= of another dimension")
        out[...] = r
        return out

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        m = UMETHODS.get((self.name, n))
        if m is not None:
            return m
        unsupported("numpy.%s.%s is outside the verifier's library contracts" % (self.name, n))

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        return self.name


ALLK = {"interp", "arange", "loadtxt", "savetxt", "errstate", "cross", "diff", "einsum"}


def scatter(sign):
    """ufunc.at of add and subtract: repeated indices accumulate"""
    def at(target, idx, vals=None):
        if not isinstance(target, Arr):
            raise TypeError("first operand must be array")
        if isinstance(idx, tuple):
            if len(idx) != 1:
                unsupported("ufunc.at of several index arrays")
            idx = idx[0]
        idx = asarr(idx)
        if idx.dtype_ != "i":
            if idx.dtype_ == "b":
                unsupported("ufunc.at of a mask")
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        vals = asarr(vals)
        d = target.shape_[0]
        if not isinstance(d, Poly):
            unsupported("ufunc.at on a structured dimension")
        target[idx]                              # indices in range
        rest = tuple(target.shape_[1:])
        full = tuple(idx.shape_) + rest
        shp = sym.broadcast_shapes([full, vals.shape_])
        if len(shp) != len(full):
            raise ValueError("array is not broadcastable to correct shape")
        ig, vg, tg = snapshot(idx), snapshot(vals), snapshot(target)
        neg = not holds(lit("le", -ig(tuple(dim_index(x) for x in idx.shape_))))
        if neg:
            unsupported("ufunc.at with negative indices")
        nd = idx.ndim

        def fn(j):
            def rec(k, acc):
                if k == nd:
                    pos = tuple(acc)
                    v = vg(sym.bidx(vals.shape_, pos + tuple(j[1:])))
                    return IV("eq", ig(pos) - j[0]) * v
                return sum_dim(idx.shape_[k], lambda i: rec(k + 1, acc + [i]))
            t = rec(0, [])
            return tg(j) + t if sign > 0 else tg(j) - t
        target[...] = Arr(target.shape_, fn, target.dtype_)
    return at


UMETHODS = {("add", "at"): scatter(1), ("subtract", "at"): scatter(-1),
            ("add", "reduce"): lambda a, axis=0, keepdims=False: reduce_sum(asarr(a), axis, keepdims),
            ("maximum", "reduce"): lambda a, axis=0, keepdims=False: reduce_ext("maxr", asarr(a), axis, keepdims),
            ("minimum", "reduce"): lambda a, axis=0, keepdims=False: reduce_ext("minr", asarr(a), axis, keepdims),
            ("add", "accumulate"): lambda a, axis=0: sym.cumsum(a, axis),
            ("multiply", "outer"): lambda a, b: outer_with(lambda x, y: x * y, a, b),
            ("add", "outer"): lambda a, b: outer_with(lambda x, y: x + y, a, b),
            ("subtract", "outer"): lambda a, b: outer_with(lambda x, y: x - y, a, b)}


def outer_with(f, a, b):
    a, b = asarr(a), asarr(b)
    return f(a[(Ellipsis,) + (None,) * b.ndim], b)


def shape_arg(s):
    if isinstance(s, (tuple, list)):
        return tuple(poly(x) for x in s)
    if isnum(s):
        return (poly(s),)
    unsupported("shape")


def check_shape(ps):
    for p in ps:
        if not p.integer:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not holds(lit("le", -p)):
            require(lit("le", -p), "negative dimensions are not allowed")
    return ps


def np_empty(shape, dtype=None, **k):
    ps = check_shape(shape_arg(shape))
    _garb[0] += 1
    nm = "uninit%d" % _garb[0]
    return Arr(ps, lambda idx: FN(nm, *engine.flat_idx(idx)), dtype_code(dtype))


def np_zeros(shape, dtype=None, **k):
    return const_arr(check_shape(shape_arg(shape)), ZERO, dtype_code(dtype))


def np_ones(shape, dtype=None, **k):
    return const_arr(check_shape(shape_arg(shape)), ONE, dtype_code(dtype))


def np_full(shape, v, dtype=None, **k):
    p = poly(v)
    return const_arr(check_shape(shape_arg(shape)), p, dtype_code(dtype) if dtype else ("i" if isinstance(v, int) else "f"))


def like(p):
    def f(a, dtype=None, **k):
        a = asarr(a)
        dt = dtype_code(dtype) if dtype is not None else a.dtype_
        q = p
        if p is None:
            _garb[0] += 1
            nm = "uninit%d" % _garb[0]
            return Arr(a.shape_, lambda idx: FN(nm, *engine.flat_idx(idx)), dt)
        return const_arr(a.shape_, q, dt)
    return f


def np_array(x, dtype=None, copy=True, **k):
    if isinstance(x, Arr):
        r = copy_arr(x)
    elif isinstance(x, (VList, list)) and len_known(x) == 0:
        r = Arr((ZERO,), lambda idx: ZERO, "f")
    else:
        r = asarr(x.as_seq() if isinstance(x, VList) and x.segs is not None else x)
        if isinstance(r, Arr) and r is x:
            r = copy_arr(r)
    if dtype is not None:
        return r.astype(dtype)
    return r


def len_known(x):
    if isinstance(x, VList) and x.segs is not None:
        return None
    return len(x)


def np_append(a, v, axis=None):
    if axis is None:
        return concatenate([flat1(a), flat1(v)])
    return concatenate([a, v], axis)


def flat1(x):
    x = np_array(x) if not isinstance(x, Arr) else x
    if x.ndim == 0:
        return x_expand1(x)
    if x.ndim == 1:
        return x
    return sym.flatten(x)


def x_expand1(x):
    return sym.x_expand(x, 1)


def np_where(c, *xy):
    if not xy:
        unsupported("where with one argument")
    a, b = xy
    if isinstance(c, (bool, SBool)):
        if isnum(a) and isnum(b):
            return Num(ITE(tocond(c), poly(a), poly(b)))
        p = cond_poly(tocond(c))
        return elementwise(lambda x, y: p * x + (ONE - p) * y, [a, b])
    ca = asarr(c)
    return elementwise(lambda p, x, y: p * x + (ONE - p) * y, [ca, a, b], "f")


def np_isin(x, arr, **k):
    a = asarr(arr)
    g = snapshot(a)
    if a.ndim != 1:
        unsupported("isin")

    def f(p):
        return ONE - IV("eq", sum_dim(a.shape_[0], lambda i: IV("eq", g((i,)) - p)))
    if isnum(x):
        p = f(poly(x))
        return bool(p.const) if p.const is not None else mkbool(cnot(lit("eq", p)))
    return elementwise(f, [x], "b")


def np_setdiff1d(a, b, **k):
    a, b = list(a), list(b)
    return VList(sorted(set(a) - set(b)))


def np_sum(a, axis=None, keepdims=False, **k):
    if isinstance(a, (VList, SymSeq)) or not isinstance(a, Arr):
        a = np_array(a) if not isnum(a) else asarr(a)
    return reduce_sum(a, axis, keepdims)


def np_max(a, axis=None, keepdims=False, **k):
    return reduce_ext("maxr", asarr(a), axis, keepdims)


def np_min(a, axis=None, keepdims=False, **k):
    return reduce_ext("minr", asarr(a), axis, keepdims)


def np_repeat(a, n, axis=None):
    return sym.repeat(a, n, axis)


def np_loadtxt(fname, *a, **k):
    extra = set(k) - {"dtype", "comments"}
    if extra or a:
        unsupported("loadtxt with %s" % sorted(extra))
    if k.get("comments", "#") != "#":
        unsupported("loadtxt comments")
    CTX.notes.append(("loadtxt", fname))
    rows = V("rows:%s" % fname, integer=True, pos=True)
    cols = P(FILECOLS)
    nm = "file:%s" % fname
    return Arr((rows, cols), lambda idx: FN(nm, *idx), "f")


FILECOLS = 9


def np_savetxt(fname, X, *a, **k):
    CTX.notes.append(("savetxt", fname, copy_arr(asarr(X)), a, dict(k)))


def np_diff(*a, **k):
    return sym.diff(*a, **k)


def np_concatenate(seq, axis=0, **k):
    if k:
        unsupported("concatenate with %s" % sorted(k))
    if isinstance(seq, Arr) and seq.ndim >= 2 and axis == 0:
        n = [sym.mknum(dsize(d)) for d in seq.shape_[2:]]
        return copy_arr(sym.reshape(seq, tuple([-1] + n)))
    return concatenate(list(asseq(seq)), axis)


def np_take(a, indices, axis=None, **k):
    if k:
        unsupported("take with %s" % sorted(k))
    a = asarr(a)
    if axis is None:
        a, axis = sym.flatten(a), 0
    ax = axis % a.ndim
    key = indices if isinstance(indices, Arr) or isnum(indices) else np_array(indices)
    return a[tuple(key if q == ax else slice(None) for q in range(a.ndim))]


def np_sort(a, *r, **k):
    a = asarr(a)
    return a[sym.argsort(a)]


def np_round(a, decimals=0, **k):
    d = P(decimals) if isinstance(decimals, int) else poly(decimals)
    if isnum(a):
        return Num(FN("round", poly(a), d))
    return elementwise(lambda p: FN("round", p, d), [a], "f")


def np_unique(*a, **k):
    unsupported("unique")


def np_dot(a, b):
    if isnum(a) or isnum(b):
        return a * b
    return matmul(a, b)


def np_outer(a, b):
    a, b = asarr(a), asarr(b)
    return a.reshape(-1, 1) * b.reshape(1, -1)


def np_clip(a, lo, hi):
    def f(x, l, h):
        y = ITE(lit("lt", x - l), l, x)
        return ITE(lit("lt", h - y), h, y)
    return elementwise(f, [a, lo, hi])


def minmax(name):
    def f(a, b):
        c = (lambda x, y: ITE(lit("lt", x - y), y, x)) if name == "max" else (lambda x, y: ITE(lit("lt", y - x), y, x))
        return ufunc2(c)(a, b)
    return f


def np_shape(a):
    return asarr(a).shape


def np_expand_dims(a, axis):
    a = asarr(a)
    key = [slice(None)] * a.ndim
    ax = axis if axis >= 0 else axis + a.ndim + 1
    key.insert(ax, None)
    return a[tuple(key)]


def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if axis not in (-1, y.ndim - 1):
        unsupported("trapz along another axis")
    if x is not None:
        xa = asarr(x)
        dx = xa[..., 1:] - xa[..., :-1]
    s = (y[..., 1:] + y[..., :-1]) * dx / 2
    return reduce_sum(s, axis=s.ndim - 1)


def np_prod(a, axis=None):
    a = np_array(a) if not isinstance(a, Arr) else a
    if axis is not None and a.ndim != 1:
        unsupported("prod along an axis")
    g, r = snapshot(a), ONE
    ns = [dsize(n).const for n in a.shape_]
    if any(n is None for n in ns):
        unsupported("product over an unknown number of entries")
    for idx in itertools.product(*[range(int(n)) for n in ns]):
        r = r * g(tuple(P(i) for i in idx))
    return Num(r)


def np_isclose(a, b, rtol=None, atol=None):
    rtol = P(Fr("1e-5")) if rtol is None else poly(rtol)
    atol = P(Fr("1e-8")) if atol is None else poly(atol)
    return elementwise(lambda x, y: IV("le", FN("abs", x - y) - atol - rtol * FN("abs", y)), [a, b], "b")


def np_allclose(a, b, rtol=None, atol=None):
    return reduce_all(asarr(np_isclose(a, b, rtol, atol)), None)


def np_flip(a, axis=None):
    a = asarr(a)
    ax = range(a.ndim) if axis is None else [axis % a.ndim]
    return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]


def np_roll(a, shift, axis=None):
    a = asarr(a)
    if a.ndim != 1 or not isinstance(shift, int):
        unsupported("roll")
    if shift == 0:
        return copy_arr(a)
    return concatenate([a[-shift:], a[:-shift]], 0)


def np_insert(a, i, v):
    a = asarr(a)
    if a.ndim != 1 or i != 0 or not isnum(v):
        unsupported("insert")
    return concatenate([asarr(VList([v])), a], 0)


def np_tanh():
    return ufunc(lambda p: FN("sinh", p) * pinv(FN("cosh", p)))


class _NDArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr)


class ndarray(metaclass=_NDArrayMeta):
    pass


class float64(engine.b_float):
    pass


def make_np():
    cosx = ufunc(lambda p: FN("cos", p))
    d = {
        "cos": cosx, "sin": ufunc(lambda p: FN("sin", p)), "tan": ufunc(lambda p: FN("sin", p) * pinv(FN("cos", p))),
        "exp": ufunc(lambda p: FN("exp", p)), "sqrt": sym.sqrt_, "cosh": ufunc(lambda p: FN("cosh", p)),
        "sinh": ufunc(lambda p: FN("sinh", p)), "arccosh": ufunc(lambda p: FN("arccosh", p)),
        "arctan": ufunc(lambda p: FN("arctan", p)), "arctan2": ufunc2(lambda a, b: FN("arctan2", a, b), "f"),
        "abs": ufunc(lambda p: FN("abs", p), None), "absolute": ufunc(lambda p: FN("abs", p), None),
        "fabs": ufunc(lambda p: FN("abs", p)),
        "square": ufunc(lambda p: p * p, None), "power": ufunc2(ppow), "negative": ufunc(lambda p: -p, None),
        "add": ufunc2(lambda a, b: a + b), "subtract": ufunc2(lambda a, b: a - b),
        "multiply": ufunc2(lambda a, b: a * b), "divide": ufunc2(sdiv, "f"), "true_divide": ufunc2(sdiv, "f"),
        "reciprocal": ufunc(lambda p: sdiv(ONE, p)),
        "remainder": ufunc2(lambda a, b: FN("remainder", a, b)), "mod": ufunc2(lambda a, b: FN("remainder", a, b)),
        "floor": ufunc(lambda p: FN("floor", p)), "ceil": ufunc(lambda p: FN("ceil", p)),
        "greater_equal": ufunc2(lambda a, b: IV("le", b - a), "b"), "greater": ufunc2(lambda a, b: IV("lt", b - a), "b"),
        "less_equal": ufunc2(lambda a, b: IV("le", a - b), "b"), "less": ufunc2(lambda a, b: IV("lt", a - b), "b"),
        "equal": ufunc2(lambda a, b: IV("eq", a - b), "b"), "not_equal": ufunc2(lambda a, b: ONE - IV("eq", a - b), "b"),
        "logical_and": ufunc2(lambda a, b: (ONE - IV("eq", a)) * (ONE - IV("eq", b)), "b"),
        "logical_or": ufunc2(lambda a, b: ONE - IV("eq", a) * IV("eq", b), "b"),
        "logical_not": ufunc(lambda a: IV("eq", a), "b"),
        "maximum": minmax("max"), "minimum": minmax("min"), "hypot": ufunc2(lambda a, b: ppow(a * a + b * b, Fr(1, 2))),
        "deg2rad": ufunc(lambda p: p * PI() / 180), "radians": ufunc(lambda p: p * PI() / 180),
        "rad2deg": ufunc(lambda p: p * 180 / PI()), "degrees": ufunc(lambda p: p * 180 / PI()),
        "pi": Num(PI()), "newaxis": None, "float64": float64, "float32": float64, "double": float64, "int64": engine.b_int,
        "int32": engine.b_int, "bool_": bool, "ndarray": ndarray,
        "empty": np_empty, "zeros": np_zeros, "ones": np_ones, "full": np_full, "zeros_like": like(ZERO),
        "ones_like": like(ONE), "empty_like": like(None),
        "full_like": lambda a, v, dtype=None: const_arr(asarr(a).shape_, poly(v), dtype_code(dtype) if dtype else asarr(a).dtype_),
        "array": np_array, "asarray": lambda x, dtype=None: (x if isinstance(x, Arr) and dtype is None else np_array(x, dtype)),
        "copy": np_array, "append": np_append, "concatenate": np_concatenate, "take": np_take,
        "atleast_2d": lambda a: asarr(a) if asarr(a).ndim > 1 else asarr(a).reshape(1, -1),
        "inner": lambda a, b: np_dot(a, b) if asarr(a).ndim <= 1 and asarr(b).ndim <= 1 else unsupported("inner"),
        "vdot": lambda a, b: np_dot(sym.flatten(asarr(a)), sym.flatten(asarr(b))),
        "identity": lambda n: sym.asarr([[1 if i == j else 0 for j in range(n)] for i in range(n)]),
        "where": np_where, "isin": np_isin, "setdiff1d": np_setdiff1d, "sum": np_sum, "max": np_max, "amax": np_max,
        "min": np_min, "amin": np_min, "mean": lambda a, axis=None, **k: reduce_mean(a, axis), "average": lambda a, axis=None, **k: reduce_mean(a, axis) if not k else unsupported("average"),
        "cumsum": lambda a, axis=None, **k: sym.cumsum(a, axis), "repeat": np_repeat, "tile": sym.tile,
        "loadtxt": np_loadtxt, "savetxt": np_savetxt, "diff": np_diff, "sort": np_sort, "argsort": sym.argsort,
        "round": np_round, "around": np_round, "round_": np_round, "interp": sym.interp, "bincount": sym.bincount,
        "cross": sym.cross, "meshgrid": sym.meshgrid, "linspace": sym.linspace, "arange": sym.arange,
        "vstack": lambda seq: sym.vstack(list(asseq(seq))), "hstack": lambda seq: sym.hstack(list(asseq(seq))),
        "row_stack": lambda seq: sym.vstack(list(asseq(seq))),
        "column_stack": lambda seq: transpose(sym.vstack(list(asseq(seq)))),
        "stack": lambda seq, axis=0: sym.stack(list(asseq(seq)), axis), "einsum": sym.einsum, "dot": np_dot,
        "matmul": sym.matmul, "outer": np_outer, "transpose": sym.transpose, "reshape": sym.reshape,
        "ravel": lambda a: sym.flatten(a), "squeeze": sym.squeeze, "moveaxis": sym.moveaxis,
        "swapaxes": lambda a, x, y: asarr(a).swapaxes(x, y), "expand_dims": np_expand_dims, "shape": np_shape,
        "size": lambda a: asarr(a).size, "ndim": lambda a: asarr(a).ndim, "clip": np_clip,
        "any": lambda a, axis=None: reduce_any(a, axis), "all": lambda a, axis=None: reduce_all(a, axis),
        "count_nonzero": lambda a, axis=None: reduce_sum(elementwise(lambda p: ONE - IV("eq", p), [a], "i"), axis),
        "isscalar": lambda x: isnum(x), "float_": float64,
        "eye": lambda n: sym.asarr([[1 if i == j else 0 for j in range(n)] for i in range(n)]),
        "atleast_1d": lambda a: x_expand1(asarr(a)) if asarr(a).ndim == 0 else asarr(a),
        "asfortranarray": lambda a: asarr(a), "ascontiguousarray": lambda a: asarr(a),
        "errstate": lambda **k: Nul(), "trapz": np_trapz, "prod": np_prod, "isclose": np_isclose, "allclose": np_allclose,
        "flip": np_flip, "flipud": lambda a: np_flip(a, 0), "fliplr": lambda a: np_flip(a, 1), "roll": np_roll, "insert": np_insert,
        "tanh": np_tanh(), "sign": ufunc(lambda p: IV("lt", -p) - IV("lt", p), None), "float_power": ufunc2(ppow, "f"),
        "array_equal": lambda a, b: reduce_all(elementwise(lambda x, y: IV("eq", x - y), [a, b], "b"), None) if all(sym.same_dim(x, y) for x, y in zip(asarr(a).shape_, asarr(b).shape_)) and asarr(a).ndim == asarr(b).ndim else unsupported("array_equal of unlike shapes"),
    }
    for n, f in list(d.items()):
        if isinstance(f, types.FunctionType):
            d[n] = LibFn(n, f)
    d["linalg"] = Lib("numpy.linalg", {
        "norm": sym.norm, "inv": sym.inv, "det": lambda a: Num(det3(a)),
        "solve": lambda a, b: matmul(sym.inv(asarr(a)), asarr(b))})
    return Lib("numpy", d)


class Nul:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def det3(a):
    a = asarr(a)
    n = int(dsize(a.shape_[0]).const)
    g = snapshot(a)
    return sym.det_of([[g((P(i), P(j))) for j in range(n)] for i in range(n)])


NP = make_np()

# ---------------------------------------------------------------------------- scipy.constants
C_hbar, C_e, C_kB, C_me = (Num(V(n, pos=True)) for n in ("hbar", "e_charge", "k_B", "m_e"))
CONST = Lib("scipy.constants", {
    "hbar": C_hbar, "elementary_charge": C_e, "e": C_e, "eV": C_e, "electron_volt": C_e, "Boltzmann": C_kB, "k": C_kB,
    "electron_mass": C_me, "m_e": C_me, "pi": Num(PI()), "h": C_hbar * 2 * Num(PI()), "Planck": C_hbar * 2 * Num(PI()),
    "angstrom": Num(P(Fr("1e-10"))), "milli": Num(P(Fr("1e-3"))), "pico": Num(P(Fr("1e-12"))),
    "physical_constants": {
        "electron volt": (C_e, "J", 0.0), "elementary charge": (C_e, "C", 0.0),
        "reduced Planck constant": (C_hbar, "J s", 0.0), "Boltzmann constant": (C_kB, "J K^-1", 0.0),
        "electron mass": (C_me, "kg", 0.0), "Planck constant": (C_hbar * 2 * Num(PI()), "J s", 0.0)},
})

# ---------------------------------------------------------------------------- sympy
MODELS = {}          # model text -> tuple of variable names
ZERO_DERIV = set()   # (model text, variable): derivative identically zero
CONST_DERIV = set()  # (model text, variable): derivative independent of the wavevector
EXPR_TEXT = {}       # text of an expression printed with str -> the expression


class AbstractSymbol:
    def __init__(self, name, **asm):
        self.name = name
        self.asm = tuple(sorted(asm.items()))

    def __deepcopy__(self, m):
        return self

    def __str__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, AbstractSymbol) and o.name == self.name and o.asm == self.asm

    def __hash__(self):
        return hash((self.name, self.asm))


class AbstractExpr:
    """coefficient times (a partial derivative of) an uninterpreted dispersion"""

    def __init__(self, model, der=(), coef=None, asm=None):
        self.model, self.der, self.coef = model, tuple(sorted(der)), coef if coef is not None else Num(ONE)
        self.asm = asm or {}    # assumptions of the symbols it was built with

    def __deepcopy__(self, m):
        return self

    def _s(self, c):
        return AbstractExpr(self.model, self.der, c, self.asm)

    def __mul__(self, o):
        return self._s(self.coef * o) if isnum(o) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._s(self.coef / o) if isnum(o) else NotImplemented

    def __neg__(self):
        return self._s(-self.coef)

    def __eq__(self, o):
        if isinstance(o, AbstractExpr):
            return self.model == o.model and self.der == o.der and bool(self.coef == o.coef)
        if isnum(o) and poly(o).const == 0:
            return self.iszero()
        return False

    __hash__ = object.__hash__

    def iszero(self):
        return any((self.model, v) in ZERO_DERIV for v in self.der) or not self.coef.p.t

    @property
    def is_zero(self):
        return self.iszero()

    def names(self):
        if self.iszero():
            return ()
        n = MODELS[self.model]
        return n[3:] if any((self.model, v) in CONST_DERIV for v in self.der) else n

    @property
    def free_symbols(self):
        return {AbstractSymbol(n, **dict(self.asm.get(n, ()))) for n in self.names()}

    def has(self, *syms):
        return any(s in self.free_symbols for s in syms)

    @property
    def is_constant_in_k(self):
        return len(self.names()) < len(MODELS[self.model])

    def __str__(self):
        if self.iszero():
            return "0"
        t = "expr__%s_%s_%d" % (re.sub(r"\W", "_", self.model), "_".join(self.der), len(EXPR_TEXT))
        EXPR_TEXT[t] = self
        return t

    def diff(self, *syms):
        return sp_diff(self, *syms)

    def eval(self, env):
        if self.iszero():
            return 0
        names = self.names()
        vals = []
        for n in names:
            if n not in env:
                raise NameError("name '%s' is not defined" % n)
            vals.append(env[n])
        uf = "E[%s]%s" % (self.model, "".join("_" + v for v in self.der))
        c = self.coef.p
        if all(isnum(v) for v in vals):
            return Num(c * FN(uf, *[poly(v) for v in vals]))
        return elementwise(lambda *ps: c * FN(uf, *ps), vals, "f")


def sympy_has(name):
    """does the name mean something else to sympy (E, I, S, beta, ...)?"""
    import sympy
    return name in sympy.__all__ if hasattr(sympy, "__all__") else hasattr(sympy, name)


def sp_sympify(x, locals=None, **k):
    if isinstance(x, AbstractExpr):
        return x
    if not (isinstance(x, str) and x in MODELS) or k:
        unsupported("sympify of this expression")
    own = dict(locals or {})
    asm, free = {}, []
    for n in MODELS[x]:
        if n in own:
            s = own[n]
            if not (isinstance(s, AbstractSymbol) and s.name == n):
                unsupported("sympify: %s stands for something else" % n)
            asm[n] = s.asm
            free.append(n)
        elif not sympy_has(n):
            free.append(n)
        elif n not in ("E", "I", "pi"):
            e = TypeError("unsupported operand type(s) for *: %s means something else in sympy" % n)
            e._repo = True
            raise e
    if len(free) == len(MODELS[x]):
        return AbstractExpr(x, asm=asm)
    # E, I and pi are read as the numbers: the expression no longer depends on the parameter of that name
    y = x + " with " + ",".join(n for n in MODELS[x] if n not in free) + " as sympy constants"
    MODELS[y] = tuple(free)
    for s in (ZERO_DERIV, CONST_DERIV):
        s.update([(y, v) for m, v in s if m == x])
    return AbstractExpr(y, asm=asm)


def sp_diff(e, *syms):
    if not isinstance(e, AbstractExpr):
        unsupported("derivative of a non-abstract expression")
    for s in syms:
        if isinstance(s, str):
            s = AbstractSymbol(s)
        if not isinstance(s, AbstractSymbol):
            unsupported("diff")
        if s.asm != e.asm.get(s.name, ()):
            # a symbol with other assumptions differs from the expression's symbol: derivative zero
            e = AbstractExpr(e.model, e.der, Num(ZERO), e.asm)
        else:
            e = AbstractExpr(e.model, e.der + (s.name,), e.coef, e.asm)
    return e


def sp_lambdify(args, expr, modules=None, **k):
    names = []
    for a in args:
        names.append(a if isinstance(a, str) else a.name)
    if modules not in ("numpy", ["numpy"], None):
        unsupported("lambdify modules")
    expr = expr if not isinstance(expr, (list, tuple)) else list(expr)

    def ev(e, env):
        if isinstance(e, AbstractExpr):
            return e.eval(env)
        if isinstance(e, str):
            g = {"__builtins__": {}, "numpy": NP, "np": NP}
            g.update({n: getattr(NP, n) for n in ("zeros_like", "ones_like", "full_like", "sin", "cos", "sqrt", "exp", "pi")})
            return eval(e, g, dict(env, **{t: x.eval(env) for t, x in EXPR_TEXT.items() if t in e}))
        if isnum(e):
            return e
        unsupported("lambdify of %s" % type(e).__name__)

    def lambdified(*vals):
        if len(vals) != len(names):
            raise TypeError("_lambdifygenerated() takes %d positional arguments but %d were given" % (len(names), len(vals)))
        env = dict(zip(names, vals))
        if isinstance(expr, list):
            return VList([ev(e, env) for e in expr])
        return ev(expr, env)
    lambdified._pv = (names, expr)
    return lambdified


def sp_symbols(s, **k):
    return tuple(AbstractSymbol(n, **k) for n in s.replace(",", " ").split())


SYMPY = Lib("sympy", {"Symbol": AbstractSymbol, "sympify": sp_sympify, "diff": sp_diff, "lambdify": sp_lambdify,
                      "symbols": sp_symbols, "parse_expr": sp_sympify, "S": sp_sympify})


# ---------------------------------------------------------------------------- numba
def jit(f=None, *a, **k):
    if f is None or not callable(f):
        return lambda g: g
    return f


NUMBA = Lib("numba", {"jit": jit, "njit": jit, "prange": engine.b_range})


# ---------------------------------------------------------------------------- scipy.integrate
def r_flow(c, fx, fy, fz, x, y, z, dt):
    if not dt.t:
        k = c.const
        if k is not None:
            return (x, y, z)[int(k)]
    return None


T.RULES["flow"] = r_flow
_od = [0]


def odeint(func, y0, t, args=(), **k):
    """contract: row j is the solution at t[j] - t[0] of dy/dt = func(y, t) started from y0. For a right-hand side
    under which each point (column) evolves independently the solution of a point is the flow of its own 3-vector."""
    for n in k:
        if n not in ("rtol", "atol", "mxstep", "hmax"):
            unsupported("odeint option " + n)
    CTX.notes.append(("odeint", dict(k)))
    y0 = asarr(y0)
    t = asarr(t)
    if y0.ndim != 1 or t.ndim != 1:
        raise ValueError("odeint: y0 and t must be one-dimensional")
    d = y0.shape_[0]
    td = t.shape_[0]
    require(lit("lt", -td), "odeint: empty time grid")
    yg, tg = snapshot(y0), snapshot(t)
    _od[0] += 1
    st = "odestate%d" % _od[0]
    state = Arr((d,), lambda idx: FN(st, *engine.flat_idx(idx)), "f")
    tv = fresh("t", integer=False)
    F = func(state, Num(tv), *args)
    F = asarr(F)
    if F.ndim != 1:
        raise ValueError("The array return by func must be one-dimensional")
    fg = snapshot(F)
    if isinstance(d, FlatDim) and len(d.comps) == 2 and isinstance(F.shape_[0], Poly) and holds(lit("eq", F.shape_[0] - dsize(d))):
        flat = fg
        fg = lambda idx: flat((idx[0][0] * d.comps[1] + idx[0][1],))
    else:
        dim_eq(F.shape_[0], d, "The size of the array returned by func does not match the size of y0")
    if not (isinstance(d, FlatDim) and len(d.comps) == 2 and d.comps[0].const == 3):
        unsupported("odeint state is not (3, N)")
    n = ranged(fresh("n", nonneg=True), d.comps[1])
    xs = [fresh("x", integer=False) for _ in range(3)]
    bodies = []
    coupled = False
    for c in range(3):
        b = fg(((P(c), n),))

        def rep(cc, nn):
            if nn is n or not (nn - n).t:
                k2 = cc.const
                if k2 is not None:
                    return xs[int(k2)]
            return FN(st + "o", cc, nn)
        b = replace_fn(b, {st: rep})
        if st + "o" in mentions(b):
            coupled = True
        bodies.append(b)
    nid = atom_of(n).id
    tid = atom_of(tv).id
    autonomous = all(tid not in b.free for b in bodies)
    t0 = tg((ZERO,))
    if coupled or not autonomous:
        lams = [LAM(xs + [tv], [T.REALDOM] * 4, replace_fn(b, {st + "o": lambda cc, nn: FN("odeother", cc, nn)})) for b in bodies]
        nm = "coupledflow"

        def fn(idx):
            c, m = idx[1]
            ls = [T.subst_arg(l, {nid: m}) for l in lams]
            return FN(nm, c, *ls, *[yg(((P(q), m),)) for q in range(3)], tg((idx[0],)), t0)
    else:
        lams = [LAM(xs, [T.REALDOM] * 3, b) for b in bodies]

        def fn(idx):
            c, m = idx[1]
            ls = [T.subst_arg(l, {nid: m}) for l in lams]
            return FN("flow", c, *ls, *[yg(((P(q), m),)) for q in range(3)], tg((idx[0],)) - t0)
    return Arr((td, d), fn, "f")


INTEGRATE = Lib("scipy.integrate", {"odeint": odeint})


# ---------------------------------------------------------------------------- scipy.optimize
def brentq(f, a, b, args=(), xtol=2e-12, rtol=None, maxiter=100, full_output=False, disp=True):
    """contract: f is evaluated at trial points (the last one arbitrary) and a zero of f in [a, b], to within xtol, is
    returned"""
    if full_output:
        unsupported("brentq full_output")
    x = fresh("trial", integer=False)
    r = f(Num(x), *args)
    lam = LAM([x], [T.REALDOM], poly(r))
    CTX.notes.append(("brentq", lam, poly(a), poly(b), poly(xtol)))
    return Num(FN("brentq", lam, poly(a), poly(b), poly(xtol)))


class OptimizeResult(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __deepcopy__(self, m):
        return OptimizeResult({k: _copy.deepcopy(v, m) for k, v in self.items()})


TRIAL = {}           # name of a free parameter position -> facts wanted by a contract (pos=True)


def trial_vector(tag, n):
    return Arr((P(n),), lambda idx, vs=tuple(V("%s%d" % (tag, i), **TRIAL.get(i, {})) for i in range(n)): pick([lambda r, v=v: v for v in vs], idx[0], ()), "f")


def differential_evolution(func, bounds, args=(), strategy="best1bin", maxiter=1000, popsize=15, tol=0.01, mutation=(0.5, 1),
                           recombination=0.7, seed=None, callback=None, disp=False, polish=True, init="latinhypercube", atol=0,
                           updating="immediate", workers=1, constraints=(), x0=None, *, integrality=None, vectorized=False):
    """contract: evaluates func at trial vectors with one entry per bound, through workers when that is a map (or a number of
    processes other than one), calls callback(best so far, convergence) after each generation, stops early when it returns
    something true, and returns as x the vector with the lowest value among those evaluated"""
    if vectorized or integrality is not None or constraints != () or isinstance(init, Arr):
        unsupported("differential_evolution options")
    if updating not in ("immediate", "deferred"):
        raise ValueError("updating")
    bl = [list(asseq(b)) for b in asseq(bounds)]
    if not bl or any(len(b) != 2 for b in bl):
        raise ValueError("bounds should be a sequence containing finite real valued (min, max) pairs for each value in x")
    n = len(bl)
    xs = [trial_vector(t, n) for t in ("trial_first", "trial_second")]

    f = func if args == () else FuncWrapper(func, args)
    if callable(workers):
        vals = [list(asseq(workers(f, VList([xs[0]])))), list(asseq(workers(f, VList(xs))))]
    elif isnum(workers) and not (isinstance(workers, int) and workers == 1):
        pl = Pool(workers if not (isinstance(workers, int) and workers == -1) else None)
        vals = [list(asseq(pl.map(f, VList([xs[0]])))), list(asseq(pl.map(f, VList(xs))))]
    else:
        a = f(xs[0])
        vals = [[a], [f(xs[0]), f(xs[1])]]
    if len(vals[0]) != 1 or len(vals[1]) != 2:
        raise RuntimeError("The map-like callable must be of the form f(func, iterable), returning a sequence of numbers the same length as 'iterable'")
    stops = []
    best = trial_vector("best", n)
    if callback is not None:
        for b in (trial_vector("best_so_far", n), best):
            stops.append(callback(copy_arr(b), Num(fresh("convergence", integer=False))))
    if polish and not (isinstance(polish, bool) and not polish):
        f(trial_vector("polish", n))
    CTX.notes.append(("differential_evolution", {"bounds": bl, "trials": [(xs[0], vals[0][0]), (xs[0], vals[1][0]), (xs[1], vals[1][1])],
                                                 "best": best, "stops": stops, "callback": callback, "popsize": popsize, "mutation": mutation,
                                                 "recombination": recombination, "maxiter": maxiter}))
    return OptimizeResult(x=copy_arr(best), fun=Num(V("best_fun")), success=True, nit=Num(V("nit", integer=True, pos=True)),
                          nfev=Num(V("nfev", integer=True, pos=True)), message="")


class FuncWrapper:
    def __init__(self, f, args):
        self.f, self.args = f, args

    def __call__(self, x):
        return self.f(x, *self.args)


OPTIMIZE = Lib("scipy.optimize", {"brentq": brentq, "differential_evolution": differential_evolution, "OptimizeResult": OptimizeResult})


# ---------------------------------------------------------------------------- multiprocessing
NCPU = [None]


def cpu_count(logical=True):
    return Num(V("cpus_logical" if logical else "cpus", integer=True, pos=True))


def pickled(f):
    """what a worker receives: a copy of the callable and of the object it is bound to"""
    g = f
    while isinstance(g, (FuncWrapper, FUNCTOOLS.partial, Starred)):
        g = g.f if isinstance(g, FuncWrapper) else g.func
    g = getattr(g, "__func__", g)
    q = getattr(g, "__qualname__", "")
    if "<lambda>" in q or ("<locals>" in q and isinstance(g, types.FunctionType) and not stand_in(g)):
        raise AttributeError("Can't pickle local object %r" % q)
    if isinstance(f, types.MethodType):
        return types.MethodType(f.__func__, _copy.deepcopy(f.__self__))
    return _copy.deepcopy(f)


def stand_in(g):
    return "cuprates_transport" not in g.__code__.co_filename


class Memory:
    """the module globals a forked worker starts from"""

    def __init__(self):
        self.mods = engine.PROGRAM[0].mods if engine.PROGRAM[0] else {}
        self.data = {n: self.snap(m.__dict__) for n, m in self.mods.items()}

    @staticmethod
    def snap(g):
        return {k: _copy.deepcopy(v) if isinstance(v, (list, dict, Arr)) and not k.startswith("__") else v for k, v in g.items()}

    def __enter__(self):
        self.kept = {n: dict(m.__dict__) for n, m in self.mods.items()}
        for n, m in self.mods.items():
            m.__dict__.clear()
            m.__dict__.update(self.snap(self.data.get(n, self.kept[n])))

    def __exit__(self, *a):
        for n, m in self.mods.items():
            m.__dict__.clear()
            m.__dict__.update(self.kept[n])


class Pool:
    """contract (fork start method): at least one process, else ValueError; every worker starts from the module globals of the
    parent at creation and runs the initializer once; map evaluates on copies of the callable, in chunks sharing one copy, in
    any worker, and returns the values in the order of the arguments; nothing the workers do reaches the parent"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None:
            if not isnum(processes):
                raise TypeError("processes")
            p = poly(processes)
            if not p.integer:
                raise TypeError("'float' object cannot be interpreted as an integer")
            if not holds(lit("le", ONE - p)):
                require(lit("le", ONE - p), "Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self.memory, self.init, self.initargs, self.open = Memory(), initializer, initargs, True

    def __deepcopy__(self, m):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")

    def map(self, func, iterable, chunksize=None):
        if not self.open:
            raise ValueError("Pool not running")
        items = list(asseq(iterable))
        f = pickled(func)
        with self.memory:
            if self.init is not None:
                self.init(*self.initargs)
            return VList([_copy.deepcopy(f(_copy.deepcopy(x))) for x in items])

    def imap(self, func, iterable, chunksize=1):
        return self.map(func, iterable)

    def starmap(self, func, iterable, chunksize=None):
        pickled(func)
        return self.map(FuncWrapper(Starred(func), ()), iterable)

    def close(self):
        self.open = False

    def terminate(self):
        self.open = False

    def join(self):
        if self.open:
            raise ValueError("Pool is still running")

    def __enter__(self):
        if not self.open:
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()
        return False


class Starred:
    def __init__(self, f):
        self.func = f

    def __call__(self, a):
        return self.func(*a)


class Value:
    """shared between processes: what is read is any number the workers may have left"""

    def __init__(self, code="i", v=0, lock=True):
        self.code = code

    def __deepcopy__(self, m):
        raise RuntimeError("Synchronized objects should only be shared between processes through inheritance")

    @property
    def value(self):
        return Num(fresh("shared", integer=self.code in ("i", "l", "L", "q"), nonneg=True))

    @value.setter
    def value(self, v):
        pass

    def get_lock(self):
        return Nul()


FUNCTOOLS = __import__("functools")
PSUTIL = Lib("psutil", {"cpu_count": cpu_count})
MULTI = Lib("multiprocessing", {"Pool": Pool, "Value": Value, "cpu_count": cpu_count, "pool": Lib("multiprocessing.pool", {"Pool": Pool})})


# ---------------------------------------------------------------------------- files
class File:
    def __init__(self, path, mode="r"):
        self.path, self.mode = path, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, t):
        if "w" not in self.mode and "a" not in self.mode:
            raise OSError("not writable")
        CTX.notes.append(("text", self.path, t))

    def read(self, *a):
        unsupported("reading a file")

    flush = close


def open_(path, mode="r", *a, **k):
    if not isinstance(path, str):
        unsupported("file name")
    if mode.strip("t") not in ("r", "w"):
        unsupported("file mode")
    return File(path, mode)


def jsonable(x):
    """copy of what is written, or the error json raises"""
    if isinstance(x, dict):
        if getattr(x, "poison", None):
            unsupported("dictionary of symbolic keys")
        out = {}
        for k, v in dict.items(x):
            if not isinstance(k, (str, int, float, bool, type(None))) and not isnum(k):
                raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)
            out[str(k) if isinstance(k, (int, float)) and not isinstance(k, bool) else k] = jsonable(v)
        return out
    if isinstance(x, (list, tuple)):
        if getattr(x, "segs", None) is not None:
            unsupported("list of symbolic length")
        return [jsonable(v) for v in x]
    if isinstance(x, (str, bool, type(None))) or isnum(x):
        return x
    if isinstance(x, Arr):
        if x.ndim == 0:
            return Num(x.get(()))
        raise TypeError("Object of type ndarray is not JSON serializable")
    if isinstance(x, SBool):
        unsupported("symbolic truth value")
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def json_dump(obj, f, **k):
    if not isinstance(f, File):
        unsupported("json.dump to something else than a file")
    if "w" not in f.mode:
        raise OSError("not writable")
    CTX.notes.append(("json", f.path, jsonable(obj)))


def json_load(f, **k):
    for n in reversed(CTX.notes):
        if n[0] == "json" and n[1] == f.path:
            return engine.b_dict(n[2]) if False else _revive(n[2])
    unsupported("json file not written on this path")


def _revive(x):
    if isinstance(x, dict):
        return VDict({k if isinstance(k, str) else str(k): _revive(v) for k, v in x.items()})
    if isinstance(x, list):
        return VList([_revive(v) for v in x])
    return x


JSON = Lib("json", {"dump": json_dump, "load": json_load})


# ---------------------------------------------------------------------------- skimage.measure
def _rng(name, lo, hi):
    def f(env, *args):
        return prover._h(env.seed, name, prover.rnd_args(args)).randrange(lo, hi)
    return f


_nv, _nf, _np = _rng("mcnv", 3, 6), _rng("mcnf", 1, 4), _rng("cnpts", 2, 6)


def _mcf(env, t, lv, i, j):
    return prover._h(env.seed, "mcf", prover.rnd_args((t, lv, i, j))).randrange(0, _nv(env, t, lv))


def _cxy(env, t, lv, i, j, c):
    """contour coordinates, in grid units"""
    n = len(t) if c == 0 else (len(t[0]) if len(t) else 1)
    return prover._h(env.seed, "cxy", prover.rnd_args((t, lv, i, j, c))).uniform(0, max(n - 1, 1))


declare("ncont", integer=True, nonneg=True, num=_rng("ncont", 0, 3))
declare("cnpts", integer=True, nonneg=True, num=_np, facts=lambda *a: [lit("le", 2 - FN("cnpts", *a))])
declare("cxy", nonneg=True, num=_cxy)
declare("mcnv", integer=True, nonneg=True, num=_nv, facts=lambda *a: [lit("le", 3 - FN("mcnv", *a))])
declare("mcnf", integer=True, nonneg=True, num=_nf, facts=lambda *a: [lit("le", 1 - FN("mcnf", *a))])
declare("mcf", integer=True, nonneg=True, num=_mcf,
        facts=lambda lam, lev, i, j: [lit("lt", FN("mcf", lam, lev, i, j) - FN("mcnv", lam, lev))])
declare("mcv", nonneg=True)


def field_lam(a, level):
    """the field relative to the level: the level set of f at l is that of f - l at 0"""
    a = asarr(a)
    vs = []
    for d in a.shape_:
        if not isinstance(d, Poly):
            unsupported("field with structured dimension")
        vs.append(ranged(fresh("g", nonneg=True), d))
    return LAM(vs, list(a.shape_), a.get(tuple(vs)) - level)


def find_contours(image, level=None, fully_connected="low", positive_orientation="low", **k):
    image = asarr(image)
    if k or level is None or fully_connected != "low":
        unsupported("find_contours options")
    if image.ndim != 2:
        raise ValueError("Only 2D arrays are supported.")
    lam = field_lam(image, poly(level))
    lv = ZERO
    n = FN("ncont", lam, lv)

    def item(i):
        m = FN("cnpts", lam, lv, i)
        return Arr((m, P(2)), lambda idx: FN("cxy", lam, lv, i, idx[0], idx[1]), "f")
    return SymSeq(n, item)


def marching_cubes(volume, level=None, *, spacing=(1, 1, 1), gradient_direction="descent", step_size=1,
                   allow_degenerate=True, method="lewiner", mask=None):
    volume = asarr(volume)
    if level is None or step_size != 1 or allow_degenerate is not True or mask is not None or method != "lewiner":
        unsupported("marching_cubes options")
    if volume.ndim != 3:
        raise ValueError("Input volume should be a 3D numpy array.")
    lam = field_lam(volume, poly(level))
    lv = ZERO
    sp = [poly(s) for s in spacing]
    if len(sp) != 3:
        raise ValueError("`spacing` must consist of three floats.")
    nv, nf = FN("mcnv", lam, lv), FN("mcnf", lam, lv)
    verts = Arr((nv, P(3)), lambda idx: pick([lambda r, s=s: s for s in sp], idx[1], ()) * FN("mcv", lam, lv, idx[0], idx[1]), "f")
    faces = Arr((nf, P(3)), lambda idx: FN("mcf", lam, lv, idx[0], idx[1]), "i")
    normals = Arr((nv, P(3)), lambda idx: FN("mcn", lam, lv, idx[0], idx[1]), "f")
    values = Arr((nv,), lambda idx: FN("mcval", lam, lv, idx[0]), "f")
    return verts, faces, normals, values


def bincount_len(x):
    """every vertex of the triangulation belongs to a face, so the largest index is nv - 1"""
    import itertools
    for d in x.shape_:
        idx = dim_index(d)
    p = x.get((idx,))
    at = atom_of(p)
    if at is not None and at.kind == "f" and at.a[0] == "mcf":
        return FN("mcnv", at.a[1], at.a[2])
    return None


sym.BINCOUNT_LEN = bincount_len
MEASURE = Lib("skimage.measure", {"find_contours": find_contours, "marching_cubes": marching_cubes})


# ---------------------------------------------------------------------------- lmfit
class Parameter:
    _pv_heap = True

    def __init__(self, name, value=None, vary=True, min=None, max=None, expr=None, brute_step=None, **k):
        if expr is not None or vary is not True:
            unsupported("lmfit parameter options")
        self.name, self.value, self.min, self.max, self.vary = name, value, min, max, vary


class Parameters(VDict):
    def add(self, name, value=None, vary=True, min=None, max=None, expr=None, brute_step=None):
        if isinstance(name, Parameter):
            self[name.name] = name
        else:
            self[name] = Parameter(name, value, vary, min, max, expr)

    def valuesdict(self):
        return VDict({k: v.value for k, v in self.items()})


class MinimizerResult:
    _pv_heap = True


def minimize(fcn, params, method="leastsq", args=None, kws=None, iter_cb=None, scale_covar=True, nan_policy="raise", reduce_fcn=None,
             calc_covar=True, max_nfev=None, **fit_kws):
    """contract: evaluates fcn, any number of times, at a copy of params (one object, updated between the evaluations) holding
    trial values, and returns a result whose params hold the trial with the lowest sum of squares; that need not be the last
    one evaluated. The params given stay as they were"""
    if method not in ("leastsq", "least_squares", "differential_evolution", "shgo", "ampgo", "nelder", "lbfgsb", "powell", "cg", "dual_annealing", "basinhopping"):
        unsupported("lmfit method %s" % (method,))
    if iter_cb is not None or reduce_fcn is not None or fit_kws.get("workers", 1) != 1:
        unsupported("lmfit options")
    if not isinstance(params, Parameters):
        unsupported("minimize without Parameters")
    work = _copy.deepcopy(params)
    start = {k: (v.value, v.min, v.max) for k, v in params.items()}
    trials = []

    def put(tag):
        for k in work.keys():
            work[k].value = Num(V("%s_%s" % (tag, k), **TRIAL.get(k, {})))
    for tag in ("trial_first", "trial_second"):
        put(tag)
        x = {k: v.value for k, v in work.items()}
        trials.append((x, fcn(work, *(args or ()), **(kws or {}))))
    put("best")
    CTX.notes.append(("minimize", {"start": start, "trials": trials, "best": {k: v.value for k, v in work.items()}, "method": method}))
    r = MinimizerResult()
    r.params, r.success, r.nfev, r.method = work, True, Num(V("nfev", integer=True, pos=True)), method
    return r


LMFIT = Lib("lmfit", {"Parameters": Parameters, "minimize": minimize, "report_fit": Stub("report_fit")})


# ---------------------------------------------------------------------------- time, os, json ...
def _time():
    return Num(fresh("clock", integer=False))


TIME = Lib("time", {"time": _time})
OS = Lib("os", {"path": Lib("os.path", {"join": os.path.join}), "sep": os.sep, "cpu_count": cpu_count})
SYS = Lib("sys", {"stdout": Stub("stdout"), "exit": engine.b_exit})
COPY = Lib("copy", {"deepcopy": _copy.deepcopy, "copy": _copy.copy})


def tqdm(x=None, *a, **k):
    return x


MATH = Lib("math", {k: NP.__dict__[k] for k in ("cos", "sin", "tan", "exp", "sqrt", "cosh", "sinh", "pi", "floor", "ceil")})
ITERTOOLS = __import__("itertools")
TYPING = __import__("typing")

LIBS = {
    "numpy": NP, "numpy.linalg": NP.linalg, "scipy": Lib("scipy", {"optimize": OPTIMIZE, "constants": CONST, "integrate": INTEGRATE}),
    "scipy.constants": CONST, "scipy.optimize": OPTIMIZE, "scipy.integrate": INTEGRATE, "sympy": SYMPY, "numba": NUMBA,
    "skimage": Lib("skimage", {"measure": MEASURE}), "skimage.measure": MEASURE, "lmfit": LMFIT, "time": TIME, "os": OS,
    "os.path": OS.path, "sys": SYS, "copy": COPY, "tqdm": Lib("tqdm", {"tqdm": tqdm}), "math": MATH, "functools": FUNCTOOLS,
    "itertools": ITERTOOLS, "typing": TYPING, "json": JSON, "psutil": PSUTIL, "multiprocessing": MULTI, "multiprocessing.pool": MULTI.pool,
    "warnings": Stub("warnings"), "collections": __import__("collections"), "operator": __import__("operator"),
    "contextlib": __import__("contextlib"), "dataclasses": __import__("dataclasses"),
}


def import_(name, fromlist, prog):
    top = name.split(".")[0]
    if top in ("matplotlib", "mpl_toolkits"):
        return Stub(name)
    if name in LIBS:
        return LIBS[name] if fromlist or "." not in name else LIBS[top]
    if top == "__future__":
        return __import__(name)
    unsupported("import of " + name)
