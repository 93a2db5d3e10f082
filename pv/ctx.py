"""Path exploration, journal of heap writes, faults and obligations."""
import sys
import time
from terms import *
import terms as T
from prover import FACTS, holds, sat, refute_cond, refute_eq, zero, STATS
import prover
import z3


class Fault(Exception):
    """a runtime fault of the code under verification that the facts do not exclude"""

    def __init__(self, msg, model=None):
        Exception.__init__(self, msg)
        self.model = model


class PathAbort(BaseException):
    """the current path turned out infeasible"""


class Ctx:
    def __init__(self):
        self.script = []        # decisions to replay
        self.pos = 0
        self.made = []          # (decision, can flip)
        self.unsupported = None
        self.journal = []
        self.depth_guard = []   # active loop summaries
        self.requires = 0
        self.notes = []

    def reset_path(self, script):
        self.script = list(script)
        self.pos = 0
        self.made = []
        self.unsupported = None
        self.journal = []
        self.depth_guard = []
        self.hooks = {}
        self.notes = []


CTX = Ctx()


def unsupported(msg):
    if CTX.unsupported is None:
        CTX.unsupported = msg
        if os.environ.get("PV_TRACE"):
            import traceback
            for f in traceback.extract_stack()[-14:-1]:
                print("   >", os.path.basename(f.filename), f.lineno, f.name)
    raise Unsupported(msg)


def decide(c):
    """turn a symbolic condition into a Python bool, forking the path when both outcomes are possible"""
    if c.k == "const":
        return c.a[0]
    if CTX.unsupported is not None:
        raise Unsupported(CTX.unsupported)
    r = quick(c)
    if r is not None:
        return r
    hoist = False
    if CTX.depth_guard:
        if not all(g.invariant(c) for g in CTX.depth_guard):
            return CTX.depth_guard[-1].decide(c)
        hoist = True            # the same in every iteration: decided once for the path
    if CTX.pos < len(CTX.script):
        v = CTX.script[CTX.pos]
    else:
        v = True
        if len(CTX.script) > 60 or CTX.pos > 60:
            unsupported("too many branches on one path")
    CTX.pos += 1
    CTX.made.append(v)
    (FACTS.insert if hoist else FACTS.push)(c if v else cnot(c))
    return v


def quick(c):
    if holds(c):
        return True
    if holds(cnot(c)):
        return False
    return None


def require(c, what):
    """safety obligation of an operation (index in range, equal shapes...)"""
    if c.k == "const" and c.a[0]:
        return
    CTX.requires += 1
    if holds(c):
        return
    if CTX.unsupported is not None:
        raise Unsupported(CTX.unsupported)
    # definite counterexample?
    r, m = sat(FACTS.stack + [cnot(c)], 2000, model=True)
    if c.k == "const":
        raise Fault(what)
    if r == z3.sat:
        model, good = refute_cond(c, tries=40, budget=5)
        if model is not None:
            raise Fault(what, model)
        if good == 0:
            unsupported("cannot decide safety condition: %s (%r)" % (what, c))
        # numerically always true: undecided
        unsupported("unproved safety condition: %s (%r)" % (what, c))
    unsupported("unproved safety condition: %s (%r)" % (what, c))


def explore(run, max_paths=256):
    """run() once per feasible path. Yields (path facts, outcome) where outcome = ('ok', value) |
    ('raise', exc) | ('unsupported', msg)"""
    base = FACTS.mark()
    todo = [[]]
    n = 0
    out = []
    while todo:
        script = todo.pop()
        n += 1
        if n > max_paths:
            out.append((list(FACTS.stack), ("unsupported", "too many paths")))
            break
        FACTS.end_path(base)
        CTX.reset_path(script)
        try:
            v = run()
            res = ("ok", v)
        except Unsupported as e:
            res = ("unsupported", str(e))
        except Fault as e:
            res = ("raise", e)
        except PathAbort:
            res = None
        except RecursionError as e:
            if os.environ.get("PV_DEBUG"):
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                for f in tb[:40] + tb[-60:]:
                    print('   ', f.filename[-12:], f.lineno, f.name)
            res = ("unsupported", "recursion")
        except (Exception, SystemExit) as e:
            res = classify_exc(e)
        if CTX.unsupported is not None:
            res = ("unsupported", CTX.unsupported)
        made = CTX.made
        for k in range(len(script), len(made)):
            todo.append(made[:k] + [not made[k]])
        if res is not None:
            yield list(FACTS.stack), res
    FACTS.end_path(base)


SHIM_MARK = "/pv/"
import os
_HERE = os.path.dirname(os.path.abspath(__file__))


def classify_exc(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        line = tb.tb_lineno
        tb = tb.tb_next
    msg = "%s: %s" % (type(e).__name__, e)
    if last and os.path.dirname(os.path.abspath(last)) == _HERE:
        if getattr(e, "_repo", False):
            return ("raise", e)
        if os.environ.get("PV_DEBUG"):
            import traceback
            traceback.print_exception(e)
        return ("unsupported", "verifier library: " + msg)
    if last and os.path.dirname(os.path.abspath(last)) == os.path.join(os.path.dirname(_HERE), "contracts"):
        return ("unsupported", "contract not applicable to this code: " + msg)
    if isinstance(e, (TypeError, AttributeError, ValueError)) and any(
            w in msg for w in ("'Num'", "'Arr'", "'SBool'", "Sym", "'V", "Abstract")):
        if os.environ.get("PV_DEBUG"):
            import traceback
            traceback.print_exception(e)
        return ("unsupported", msg)
    return ("raise", e)
