"""Concrete replay battery: runs the real package of /repo on generated inputs and compares with independent oracles.
It is a bounded check beside the proof: it turns a failed obligation into a failing input and stands in where the
verifier gives no verdict. Every case is a function of (seed, case name, index) only."""
import os
import sys
import json
import time
import zlib
import inspect
import traceback
import warnings
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMEXPR_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")

CASES = []


def case(props, quick=4, thorough=40):
    """register a case for one or several properties; quick/thorough: number of generated inputs"""
    def deco(f):
        for p in (props,) if isinstance(props, str) else props:
            CASES.append((p, f.__name__, f, quick, thorough))
        return f
    return deco


class Fail(Exception):
    pass


class Known(Exception):
    pass


class Ck:
    def __init__(self, rng):
        self.rng, self.n, self.inputs, self.known = rng, 0, {}, []

    def inp(self, **kw):
        for k, v in kw.items():
            self.inputs[k] = show(v)

    def true(self, name, cond, info=""):
        self.n += 1
        if not cond:
            raise Fail("%s: %s" % (name, info))

    def eq(self, name, got, want):
        self.n += 1
        if not (type(got) is type(want) or (np.isscalar(got) and np.isscalar(want))) or not got == want:
            raise Fail("%s: got %s, expected %s" % (name, show(got), show(want)))

    def close(self, name, got, want, rtol=1e-9, atol=0.0):
        """numerically equal; atol is relative to the largest magnitude expected"""
        self.n += 1
        if got is None:
            raise Fail("%s: got None, expected %s" % (name, show(want)))
        g, w = np.asarray(got, float), np.asarray(want, float)
        if g.shape != w.shape:
            raise Fail("%s: shape %s, expected %s" % (name, g.shape, w.shape))
        scale = np.max(np.abs(w[np.isfinite(w)])) if w.size and np.isfinite(w).any() else 0
        bad = ~(np.abs(g - w) <= rtol * np.abs(w) + (atol + 1e-13) * scale) & ~((g == w) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = tuple(np.argwhere(bad)[0]) if g.ndim else ()
            raise Fail("%s: got %r, expected %r at %s" % (name, float(g[i]), float(w[i]), i))

    def same_rows(self, name, got, want, tol):
        """the same multiset of rows, in any order (tol absolute, per coordinate)"""
        from scipy.spatial import cKDTree
        self.n += 1
        g, w = np.atleast_2d(np.asarray(got, float)), np.atleast_2d(np.asarray(want, float))
        if g.shape != w.shape:
            raise Fail("%s: %s entries, expected %s" % (name, g.shape, w.shape))
        if not g.size:
            return
        if not np.isfinite(g).all():
            raise Fail("%s: not finite" % name)
        tol = np.broadcast_to(np.asarray(tol, float), (w.shape[1],))
        gs, ws = g / tol, w / tol
        for a, b, what in ((gs, ws, "not expected"), (ws, gs, "missing")):
            # within one tolerance of each other, counted with multiplicity
            ta, tb = cKDTree(a), cKDTree(b)
            d, _ = tb.query(a)
            if (d > 1.5).any():
                k = int(np.argmax(d))
                raise Fail("%s: entry %s (%s)" % (name, (a[k] * tol).tolist(), what))
            ca = ta.query_ball_point(a, 3, return_length=True)
            cb = tb.query_ball_point(a, 3, return_length=True)
            k = np.nonzero(ca != cb)[0]
            if len(k):
                # borderline counts are settled at a second radius
                ca2, cb2 = ta.query_ball_point(a[k], 6, return_length=True), tb.query_ball_point(a[k], 6, return_length=True)
                kk = np.nonzero(ca2 != cb2)[0]
                if len(kk):
                    raise Fail("%s: entry %s appears %d times, expected %d" % (name, (a[k[kk[0]]] * tol).tolist(), ca2[kk[0]], cb2[kk[0]]))


def show(v):
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 64 else "array%s" % (v.shape,)
    if isinstance(v, (np.integer, np.floating, np.bool_)):
        return v.item()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def from_program(e):
    """True if the exception passed through the package under test, as opposed to the battery's own lines"""
    tb, hit, last = e.__traceback__, False, ""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        last = f
        hit = hit or "cuprates_transport" in f
        tb = tb.tb_next
    return hit and "/battery/" not in last


class Timeout(Exception):
    pass


def run_case(name, f, seed, i, limit=60):
    import signal
    rng = np.random.default_rng([seed, zlib.crc32(name.encode()), i])
    ck = Ck(rng)
    out = {"case": name, "seed": seed, "index": i, "status": "ok", "detail": ""}
    t = time.time()

    def stop(*a):
        raise Timeout()
    if limit:
        signal.signal(signal.SIGALRM, stop)
        signal.alarm(limit)
    err = open(os.devnull, "w")
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = err
    try:
        f(rng, ck)
    except Fail as e:
        out.update(status="fail", detail=str(e))
    except Timeout:
        out.update(status="undecided", detail="time limit")
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        msg = "%s: %s" % (type(e).__name__, e)
        tb = traceback.format_exc().splitlines()[-12:]
        out.update(status="fail" if from_program(e) else "undecided", detail="raised " + msg, traceback=tb)
    finally:
        if limit:
            signal.alarm(0)
        sys.stdout, sys.stderr = so, se
    out.update(checks=ck.n, inputs=ck.inputs, known=ck.known, wall=time.time() - t)
    return out


def die_with_parent():
    """no process of a battery outlives the one that started it"""
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def _job(a, limit=60):
    """each case in a process of its own: one that runs out of time is ended and leaves nothing half done behind"""
    import pickle
    import select
    import signal
    k, seed, i = a
    p, name, f, q, t = CASES[k]
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            os.setsid()
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            data = pickle.dumps(run_case(name, f, seed, i, 0))
            with os.fdopen(wr, "wb") as h:
                h.write(data)
        except BaseException:
            os._exit(1)
        finally:
            os._exit(0)
    os.close(wr)
    data, end = b"", time.time() + limit
    while True:
        r, _, _ = select.select([rd], [], [], max(0, end - time.time()))
        part = os.read(rd, 1 << 20) if r else None
        if part:
            data += part
            continue
        break
    os.close(rd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    os.waitpid(pid, 0)
    out = {"case": name, "seed": seed, "index": i, "status": "undecided", "checks": 0, "inputs": {}, "known": [], "wall": limit}
    if part is None:
        return dict(out, detail="time limit")
    try:
        return pickle.loads(data)
    except Exception:
        return dict(out, detail="the process of the case ended without a result")


def run(prop, seed, tier, budget, jobs=4, scale=1):
    """all cases of a property within a time budget"""
    import multiprocessing as mp
    t0 = time.time()
    tasks = []
    for k, (p, name, f, q, t) in enumerate(CASES):
        if p == prop:
            tasks += [(i, (k, seed, i)) for i in range((t if tier == "thorough" else q) * scale)]
    tasks = [x for _, x in sorted(tasks, key=lambda z: z[0])]      # first input of every case, then the second ...
    res, skipped = [], 0
    os.register_at_fork(after_in_child=die_with_parent)
    for m in ("bandstructure", "conductivity", "scattering", "admr"):       # imported once, not by every case
        try:
            __import__("cuprates_transport." + m)
        except BaseException:
            break
    with mp.get_context("fork").Pool(jobs) as pool:
        it = pool.imap_unordered(_job, tasks)
        for n in range(len(tasks)):
            left = budget - (time.time() - t0)
            try:
                res.append(it.next(timeout=max(left, 0.1)))
            except mp.TimeoutError:
                skipped = len(tasks) - n
                break
        pool.terminate()
    return {"results": res, "skipped": skipped, "wall": time.time() - t0}
