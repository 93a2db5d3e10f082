"""Cross-check of the verifier against CPython and the real numpy: each snippet is executed symbolically (arrays of
unknown entries and unknown sizes) and, for several random models, concretely; the results must agree entry by entry.
A snippet the verifier does not support is reported and not counted; a difference is an error (exit 1)."""
import os
import sys
import ast
import copy
import random
import itertools
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import numpy
from harness import *
from harness import H
import engine
import libs
from prover import Env, Reject, ev, FACTS
from prover import ev_cond
if not hasattr(numpy, "trapz"):
    numpy.trapz = numpy.trapezoid

# inputs: x, y: vectors of n; m: matrix n x k; q: vector of k; t: 3 x n; c: 4 x 3; s, r: scalars; p: positive; z: sorted vector of 4 numbers
SNIPPETS = """
x + 2 * y - x * y
x / p + s
x ** 2 + np.sqrt(p) * x
-x + abs(y)
np.exp(-x) * np.cos(y) + np.sin(x) + np.tan(s)
np.arctan2(x, y)
np.sqrt(x ** 2 + y ** 2)
np.abs(np.cos(2 * np.arctan2(x, y))) ** 3
np.deg2rad(x) - np.rad2deg(y)
np.cosh(x / 10) + np.sinh(y / 10) * np.tanh(x)
np.remainder(x + 3, p)
np.cos(x - 4 * np.pi * np.floor(y)) + np.sin(2 * np.pi * np.floor(x * s) * np.floor(y) + s)
np.abs(np.cos(np.remainder(x, 2 * np.pi) / 2)) - np.abs(np.sin(x + np.pi * np.floor(y))) ** 3
np.cos(x - 3 * np.pi * np.floor(y))
np.mod(x - 3, p)
(x + np.pi / p) % (2 * np.pi / p) - np.pi / p
np.floor(x) + np.ceil(y)
np.sum(x)
np.sum(m, axis=0)
np.sum(m, axis=1)
np.sum(m)
m.sum(axis=0)
x.sum()
np.mean(x)
np.mean(m, axis=1)
np.cumsum(x)
np.cumsum(m, axis=1)
np.cumsum(m, axis=0)
np.diff(x)
np.diff(x) / 2 + x[1:]
np.max(x)
np.min(m)
np.max(np.abs(x)) + np.min(y)
np.max(m, axis=0)
np.min(m, axis=1)
np.minimum(x, y) + np.maximum(x, s)
np.where(x > y, x, 2 * y)
np.where(x > 0, 1.5, x)
x * (x > 0)
np.logical_and(x > 0, y > 0) * 1.0
np.logical_not(x > y) + 0
np.greater_equal(x, y) * 2
np.sum(x <= y)
np.linspace(s, r, n)
np.linspace(s, r, n + 1)[1:]
np.linspace(-p, p, 5)
np.linspace(s, r, n, endpoint=False)
np.linspace(s, r, 4)[1] - np.linspace(s, r, 4)[0]
np.arange(n)
np.arange(n) * p
np.arange(0, n, 1)
np.arange(2, 9, 3)
np.arange(1.0, 2.5, 0.5)
np.zeros(n) + s
np.zeros((n, k)) + q
np.ones_like(x) * s
np.zeros_like(m)
np.ones((k, n))
np.array([s, r, p])
np.array([[s, r], [p, 2.0]])
np.array([x, y, x + y])
np.array(x)[0]
np.array([])
np.meshgrid(x, q, indexing="ij")[0]
np.meshgrid(x, q, indexing="ij")[1]
np.meshgrid(x, q)[0]
np.meshgrid(x, q)[1]
np.meshgrid(x, q, y, indexing="ij")[1]
np.meshgrid(x, q, y)[2]
m.flatten()
np.ravel(m)
m.T
m.T.flatten()
np.transpose(m)
m.reshape(-1)
m.reshape(n * k)
np.reshape(t, (3, n))
x[:, None] * q[None, :]
x[:, np.newaxis] + q
m + q
m * x[:, None]
m[:, 0] + x
m[0, :]
m[0]
m[-1]
m[:, -1]
m[1:, :] - m[:-1, :]
x[1:]
x[:-1] * 2
x[::-1]
x[-1] - x[0]
x[1:] - x[:-1]
t[0] * t[1] + t[2]
t[0, :] - t[1, :]
t[:2]
t[:, 0]
np.vstack([x, y])
np.vstack((x, y, x * y))
np.vstack([t, t])
np.hstack([x, q])
np.concatenate([x, q])
np.concatenate((x[1:], y[:1]))
np.concatenate([m, m + 1], axis=1)
np.concatenate([m, m + 1], axis=0)
np.concatenate(m)
np.concatenate(t * 2)
np.take(x, np.argsort(y))
np.take(t, 1, axis=0)
np.take(m, np.argsort(q), axis=1)
np.take(c, [0, 2], axis=1)
np.inner(x, y)
np.vdot(m, m)
np.atleast_2d(x) + 1
np.append(x, s)
np.append(x, y)
np.append(s, x)
np.append(np.append(x, y[0]), q)
np.insert(x, 0, s)
np.trapz(m, dx=p)
np.trapz(m, q, axis=1)
np.trapz(x * y, x=np.cumsum(x))
np.prod(np.array([[s, r], [p, 2]]))
np.sign(x)
np.isclose(x, y) * 1
np.allclose(c, c) * 1
np.flip(x) + x[::-1]
np.fliplr(m) - m
np.roll(x, 0)
np.stack([x, y])
np.stack([x, y], axis=1)
np.cross(t[:, 0], t[:, -1])
np.cross(c[0], c[1])
np.cross(t.T, c[0])
np.cross(t, c[0], axisa=0)
np.cross(t, t * 2 + 1, axis=0)
np.dot(x, y)
np.dot(m, q)
np.dot(c, c.T)
m @ q
x @ y
np.outer(x, q)
np.einsum("ij,j->i", m, q)
np.einsum("i,ij->j", x, m)
np.einsum("ij,ij->j", t, t)
np.einsum("ij->ji", m)
np.einsum("ij,kj->ik", t, t)
np.linalg.norm(c[0])
np.linalg.norm(t, axis=0)
np.linalg.inv(c[:3] + 5 * np.eye(3))[2, 2]
np.linalg.inv(c[:3] + 5 * np.eye(3))
np.interp(s, np.array([0.0, 1.0, 2.5]), np.array([p, r, 7.0]))
np.interp(x, np.array([0.0, 1.0, 2.5]), np.array([p, r, 7.0]))
np.repeat(x, 3)
np.repeat(x, k)
np.tile(x, 2)
np.argsort(np.array([3, 1, 2]))
np.round(np.array([1.234, 5.678]), 2)
np.array([1, 2, 3, 4])[np.array([True, False, True, True])]
np.array([s, r, p, 4.0])[np.array([2, 0])]
np.array([s, r, p])[np.array([True, False, True])]
np.isin(3, np.array([1, 3])) * 1
x.size + m.shape[1] * 10
m.shape[0]
len(m) + t.ndim
m.size
np.empty(0).size
max(s, r) + min(s, p)
abs(s) + round(2.567, 1)
sum([s, r, p])
sum(z * 2 for z in [s, r])
int(7 / 2) + 7 // 2 + 7 % 3
[a + b for a, b in zip([s, r], [p, 1.0])]
[i * a for i, a in enumerate([s, r, p])]
sorted([3, 1, 2])
sorted({"b": 1, "a": 2})[0] == "a"
np.cumsum(np.arange(n))
np.pi * s
x.copy() + 1
np.copy(m)[:, 0]
np.diff(np.linspace(s, r, n + 1))
np.einsum("i,j->ij", x, q)
np.trapz(y, x)
np.prod(np.array([s, r]))
np.sum(m[:, :1])
np.sum(x[:-1] * (y[1:] - y[:-1]))
np.squeeze(m[:, :1])
np.array([s, r])[::-1]
np.all(x > -100) * 1
np.any(x > 100) * 1
np.sign(s) * abs(s)
np.isclose(s, s) * 1
"""

BLOCKS = [
"""
R = sum(a * b for a, b in zip(x, y))
""",
"""
R = sum([row * a for row, a in zip(m, x)])
""",
"""
R = sum((row * a for row, a in zip(m, x)), 0)
""",
"""
z = np.zeros(n)
L = [z.__setitem__(i, x[i] * s) or z[i] + z[0] for i in range(n)]
R = np.array(L) + z
""",
"""
z = np.zeros(2)
L = [z.__setitem__(0, z[0] + x[i]) or z[0] for i in range(n)]
R = np.append(np.array(L), z)
""",
"""
z = np.zeros(2)
L = [z.__setitem__(0, x[i]) or z[0] * i for i in range(n)]
R = np.append(np.array(L), z)
""",
"""
z = np.zeros(n)
t = sum(z.__setitem__(i, x[i] * s) or y[i] for i in range(n))
R = z + t
""",
"""
R = np.zeros(4)
np.add.at(R, [0, 2, 2, 3], np.array([s, r, p, s * r]))
""",
"""
R = np.ones(4)
np.subtract.at(R, [1, 1], np.array([s, r]))
""",
"""
R = np.zeros(x.shape)
np.multiply(x, y, out=R)
np.add(R, x, out=R)
""",
"""
R = np.add.reduce(x * y)
""",
"""
R = np.multiply.outer(x, y)
""",
"""
R = np.add.accumulate(x)
""",
"""
R = np.array([len("%g" % 2.5), len("%d and %s" % (3, "a"))])
""",
    """
a = x.copy()
b = a[1:]
b[0] = s
a[0] = r
R = a
""", """
a = x
b = a * 1
b[-1] = s
R = np.concatenate([a, b])
""", """
a = np.zeros((n, k))
a[:, 0] = x
a[0, :] = q
a[-1, -1] = s
R = a
""", """
a = np.empty((3, n))
a[0], a[1, :], a[2] = x, y, x - y
R = a
""", """
a = m.copy()
a += 1
a *= 2
a -= q
a /= p
R = a
""", """
a = 0
for i in range(n):
    a += x[i] * y[i]
R = a
""", """
a = np.zeros(n)
for i in range(n):
    a[i] = x[i] + i * s
R = a
""", """
a = np.zeros(n)
for i, v in enumerate(x):
    a[i] = v ** 2
R = a
""", """
a = []
for i in range(n):
    a.append(x[i] * 2)
R = np.array(a)
""", """
a = np.empty(0)
for i in range(n):
    a = np.append(a, m[i] * x[i])
R = a
""", """
a = np.zeros((n, k))
for i in range(n):
    for j in range(k):
        a[i, j] = x[i] * q[j] + s
R = a
""", """
a = np.zeros((n, k))
for i in range(n):
    b = 0
    for j in range(k):
        b = b + m[i, j]
        a[i, j] = b
R = a
""", """
a = s
for i in range(n):
    a = a * 1 + y[i]
R = a
""", """
a = np.zeros(n)
acc = 0
for i in range(n):
    acc = acc + x[i]
    a[i] = acc
R = a
""", """
a = [s, r]
b = a
b.append(p)
c2 = list(a)
c2[0] = 5.0
R = np.array(a + c2)
""", """
d = {"a": s, "b": r}
e = d
e["c"] = p
f = dict(d)
f["a"] = 9.0
R = np.array([d[k2] for k2 in sorted(d.keys())] + [f["a"]] + [len(f)])
""", """
d = {"b": s, "a": r}
R = np.array([v for v in d.values()] + [v * 2 for kk, v in d.items()])
""", """
a = np.zeros(n)
for i in range(n):
    if x[i] > y[i]:
        a[i] = x[i]
    else:
        a[i] = y[i] * 2
R = a
""", """
a = 0
for i in range(n):
    if x[i] > 0:
        a += x[i]
R = a
""", """
if s > r:
    R = s
elif s > p:
    R = p
else:
    R = r * 2
""", """
R = s if s > 0 else -s
""", """
try:
    v = {"a": s}["b"]
except KeyError:
    v = r
R = v
""", """
def f(a, b=2, *c, **d):
    return a * b + sum(c) + d.get("e", 0)
R = f(s) + f(s, r) + f(s, r, p, e=4) + f(*[s, 3], **{"e": r})
""", """
class A:
    kk = 3
    def __init__(self, v):
        self._v = v
    def _get(self):
        return self._v
    def _set(self, v):
        self._v = v * 2
    v = property(_get, _set)
    def __getitem__(self, i):
        return self._v + i
a = A(s)
a.v = r
R = a.v + a[2] + a.kk
""", """
import copy as cp
from copy import deepcopy
d = {"a": [s, r], "b": x}
e = deepcopy(d)
e["a"][0] = p
e["b"][0] = 7.0
f = cp.copy(d)
f["a"][1] = 8.0
R = np.concatenate([np.array(d["a"]), np.array(e["a"]), d["b"], e["b"]])
""", """
a, b, *c2 = [s, r, p, 4.0]
R = np.array([a, b] + c2[::-1])
""", """
a = 0
for u, v in zip(x, y):
    a = a + u * v
R = a
""", """
a = np.ones((k, n))
for j in range(k):
    a[j, :] = q[j] * x
R = a
""", """
a = np.ones(n + 1)
a[1:] = x
a[0] = np.sum(y)
R = a
""", """
a = np.zeros(2 * 3)
a[::2] = s
a[1::2] = r
R = a
""", """
b = x > 0
a = np.array(x)
a[b] = s
R = a
""", """
a = []
for i in range(4):
    if i == 2:
        break
    a.append(i * s)
R = np.array(a)
""", """
i, a = 0, s
while i < 3:
    a = a * r
    i += 1
R = a
""", """
f = lambda u, v=r: u * v + s
R = f(p) + f(2.0, 3.0)
""", """
R = np.array([f"{3:.2f}" == "3.00", "%d_%s" % (3, "a") == "3_a", "a" + str(2) == "a2"]) * 1.0
""", """
a = t.copy()
kx, ky, kz = a
kx[0] = s
R = a
""", """
a = np.vstack([x, y])
b = a.T
b[0, 1] = s
R = a
""", """
a = m.flatten()
a[0] = s
b = m.reshape(-1)
R = a + b
""", """
tot = np.zeros(k)
for i in range(n):
    tot = tot + m[i, :] * y[i]
R = tot
""", """
g = np.zeros((n, k, 2))
for i in range(n):
    g[i, :, 0] = q
    g[i, :, 1] = q * x[i]
R = g
""", """
o = np.array([1, 0, 2])
v = np.array([s, r, p])
R = v[o] * o
""", """
a = np.arange(1.0, 4.0)
R = a[a <= 2.5] * s
""", """
R = sum([c[i] * i for i in range(3)])
""", """
v = [0.0] * 3
v[1] += s
v[-1] -= r
R = np.array(v)
""", """
acc = np.empty((0, 3))
for i in range(4):
    acc = np.vstack([acc, c[i] * i])
R = acc
""", """
ph = np.zeros((n, k))
for i in range(n):
    ph[i] = np.cumsum(m[i])
R = ph
""", """
w = np.arange(n)
R = np.where(w % 2 == 0, x, y)
""",
]

SIZES = ["n", "k"]


def inputs(h):
    n, k = h.nat("n", 2), h.nat("k", 2)
    return {"n": n, "k": k, "x": h.arr("x", n), "y": h.arr("y", n), "m": h.arr("m", n, k), "q": h.arr("q", k), "t": h.arr("t", 3, n), "c": h.arr("c", 4, 3),
            "s": h.real("s"), "r": h.real("r"), "p": h.real("p", pos=True)}


def index_of(d, env):
    if isinstance(d, Poly):
        return [P(i) for i in range(int(round(ev(d, env, {}))))]
    if isinstance(d, FlatDim):
        return [tuple(x) for x in itertools.product(*[index_of(c, env) for c in d.comps])]
    if isinstance(d, LoopSeg):
        return [(P(i), x) for i in range(int(round(ev(d.hi, env, {})))) for x in index_of(d.at(P(i)), env)]
    return [(j, x) for j, s in enumerate(d.segs) for x in index_of(s, env)]


def concrete(v, env):
    """value of a symbolic result in a model"""
    if isinstance(v, Num):
        return numpy.array(ev(v.p, env, {}), float)
    if isinstance(v, SBool):
        return numpy.array(float(ev_cond(v.c, env)))
    if isinstance(v, Arr):
        shape = [int(round(ev(dsize(d), env, {}))) for d in v.shape_]
        g = snapshot(v)
        out = [ev(g(idx), env, {}) for idx in itertools.product(*[index_of(d, env) for d in v.shape_])]
        return numpy.array(out, float).reshape(shape)
    if isinstance(v, (list, tuple)):
        if getattr(v, "segs", None) is not None:
            return concrete(v.to_arr(), env)
        return numpy.array([concrete(z, env) for z in v])
    return numpy.array(v, float)


def real_inputs(sym, env):
    out = {}
    for k, v in sym.items():
        a = concrete(v, env)
        out[k] = int(a) if k in SIZES else float(a) if a.ndim == 0 else a
    return out


def symbolic(src):
    """all paths: list of (facts, inputs, result)"""
    tree = ast.parse(src, "snippet")
    tree = engine.Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, "snippet", "exec")
    out = []
    libs.MODELS.clear()

    def once():
        import time
        FACTS.end_path(0)
        h = H(time.time() + 60)
        g = {"__vc__": engine.VC, "__builtins__": h.prog.builtins(), "np": libs.NP}
        inp = inputs(h)
        g.update(inp)
        exec(code, g)
        return inp, g["R"]
    for facts, (kind, val) in explore(once, max_paths=60):
        if kind != "ok":
            raise Unsupported(str(val))
        out.append((facts, val))
    return out


def main():
    bad, skipped, done, comparisons = [], [], 0, 0
    wrap = lambda b: "def run_():\n" + "".join("    " + l + "\n" for l in b.strip().splitlines()) + "    return R\nR = run_()"
    srcs = ["R = " + l for l in SNIPPETS.strip().splitlines()] + [wrap(b) for b in BLOCKS]
    only = sys.argv[1:] and sys.argv[1]
    for src in srcs:
        if only and only not in src:
            continue
        try:
            paths = symbolic(src)
        except Unsupported as e:
            skipped.append((src, str(e)))
            continue
        seen = 0
        for seed in range(400):
            if seen >= 6:
                break
            hit = 0
            for facts, (inp, res) in paths:
                env = Env(seed)
                try:
                    FACTS.end_path(0)
                    if not all(ev_cond(f, env) for f in facts):
                        continue
                    ri = real_inputs(inp, env)
                    got = concrete(res, env)
                except (Reject, ZeroDivisionError):
                    continue
                g = {"np": numpy}
                g.update(ri)
                try:
                    with numpy.errstate(all="ignore"):
                        exec(compile(src, "snippet", "exec"), g)
                    want = numpy.array(g["R"], float)
                except Exception as e:
                    bad.append((src, "CPython raised %s: %s, the verifier gave a value" % (type(e).__name__, e)))
                    break
                hit += 1
                comparisons += 1
                if got.shape != want.shape or not numpy.allclose(got, want, rtol=1e-7, atol=1e-9, equal_nan=True):
                    bad.append((src, "model %s: verifier %s, CPython %s" % ({k: v for k, v in ri.items()}, got.tolist(), want.tolist())))
                    break
            if bad and bad[-1][0] == src:
                break
            if hit > 1:
                bad.append((src, "two paths for one model"))
                break
            seen += hit
        if seen == 0 and not (bad and bad[-1][0] == src):
            skipped.append((src, "no model satisfied the path conditions"))
        else:
            done += 1
    for s, e in skipped:
        print("outside the verifier: %s  -- %s" % (s.strip().replace("\n", "; ")[:90], e[:160]))
    for s, e in bad:
        print("DIFFERENT: %s\n   %s" % (s.strip(), e[:1500]))
    print("selftest: %d snippets agree with CPython/numpy on %d models, %d outside the verifier, %d differ" % (done - len(bad), comparisons, len(skipped), len(bad)))
    return 1 if bad or not done else 0


if __name__ == "__main__":
    sys.exit(main())
