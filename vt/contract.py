"""Contract runner: explores all paths of a contract and collects its obligations."""
import hashlib
import os
import sys
import time
import traceback
from .terms import *
from . import terms as T
from .state import *
from .state import Frame
from .ctx import TR, SCHEMAS, STATS, Ctx
from .stensor import *
from .stensor import input_tensor, userfloat, int64, mk, bto, bool_
from . import prover, storch
from .abssr import AbsSemiring, SV, vun
from .slist import smax, SymList, VList
from .loader import Loader
from .heap import Snapshot

CONTRACTS = []
BOUNDED = []
EXECUTED = set()
FILES = {}


def _started(code, off):
    if code.co_filename.startswith("torch_struct") and "<" not in code.co_qualname.rsplit(".", 1)[-1]:
        EXECUTED.add("%s:%s" % (code.co_filename, code.co_qualname))
    return sys.monitoring.DISABLE


def monitor():
    m = sys.monitoring
    if m.get_tool(3) is None:
        m.use_tool_id(3, "vt")
        m.register_callback(3, m.events.PY_START, _started)
        m.set_events(3, m.events.PY_START)
    m.restart_events()


def extraction():
    """What was executed: digest of every source file loaded, every /repo function entered."""
    return {"files": dict(FILES), "functions": sorted(EXECUTED)}


class Contract:
    def __init__(self, props, name, functions, fn, assumptions=(), weight=1, tier="quick"):
        self.props, self.name, self.functions, self.fn = props, name, functions, fn
        self.assumptions, self.weight, self.tier = list(assumptions), weight, tier


def contract(props, name, functions, assumptions=(), weight=1, tier="quick"):
    def deco(f):
        CONTRACTS.append(Contract(props.split(), name, functions, f, assumptions, weight, tier))
        return f
    return deco


class Env:
    """What a contract sees."""

    def __init__(self, repo):
        self.loader = Loader(repo)
        self.bounded = []

    snap = None

    def mod(self, name):
        n = len(self.loader.mods)
        m = self.loader.module(name)
        if len(self.loader.mods) != n:
            self.snap = Snapshot(self.loader)
        return m

    def put(self, module, name, value):
        """Replace a global the verified code reads by something obeying its contract."""
        setattr(self.mod(module), name, value)
        self.snap = Snapshot(self.loader)

    def heap(self):
        """Frame of the global heap and of the distribution objects."""
        if self.snap is None:
            return
        ch = self.snap.changed(self.loader)
        ob("frame: module, class and default-argument state not written", not ch, "; ".join(ch[:6]), status=None if not ch else "unknown")
        ob("frame: distribution attributes are written by __init__ and the per-object caches only", not ST.impure,
           "; ".join(ST.impure[:6]), status=None if not ST.impure else "unknown")

    @property
    def ts(self):
        return self.mod("torch_struct")

    def size(self, name, lo=1, hi=None):
        v = P(var(name))
        assume(le(lo, v))
        if hi is not None:
            assume(le(v, hi))
        return v

    def lengths(self, name, B, lo, hi):
        SCHEMAS[name] = lambda args, val: [le(lo, val), le(val, hi)]
        t = input_tensor(name, [B], int64)
        return t

    def tensor(self, name, dims, dtype=userfloat):
        return input_tensor(name, dims, dtype)

    def log2(self, n):
        """The exponent the code under verification computed as ceil(log2 n)."""
        for q, l in storch.LOG2.items():
            if same(q, n) or ST.ctx.entails(le(n, q)):
                return l
        raise Unsupported("the code does not compute ceil(log2 %r)" % (n,))

    def partition(self, sr, make):
        """partition of the distribution make() builds, the log semiring replaced by any semiring obeying the contract (C06)."""
        ST.weak = True
        self.put("torch_struct.distributions", "LogSemiring", sr)
        return make().partition

    # ---- obligations
    def shape(self, name, t, dims):
        if not isinstance(t, Tensor):
            ob(name + ": is a tensor", False, "result is %r" % type(t))
            return False
        if t.dim() != len(dims):
            ob(name + ": rank", False, "rank %d, expected %d" % (t.dim(), len(dims)), size_model(ST.ctx))
            return False
        ok = True
        for j, (g, d) in enumerate(zip(t.groups, dims)):
            a = gsize(g)
            if not same(a, P(d)):
                ob("%s: size of axis %d" % (name, j), False, "%r, expected %r" % (a, P(d)), size_model(ST.ctx, ne(a, P(d))))
                ok = False
        if ok:
            ob(name + ": shape", True)
        return ok

    def equals(self, name, t, dims, spec, extra=()):
        """t has shape dims and t[idx] == spec(*idx)."""
        if not self.shape(name, t, dims):
            return False
        ref = [() if P(d).const() == 1 else (P(d),) for d in dims]
        idx = tuple(tuple(fresh("i") for _ in g) for g in ref)
        flat_ = [i[0] if i else P(0) for i in idx]
        rng = [c for g, ix in zip(ref, idx) for n, i in zip(g, ix) for c in (le(0, i), lt(i, n))]
        with under(*rng) as c:
            for e in extra:
                c2 = e(*flat_)
                ST.ctx = ST.ctx.plus(c2)
            c = ST.ctx
            if c.dead():
                ob(name, True)
                return True
            a = bto(t, ref)(idx)
            b = spec(*flat_)
            if isinstance(b, Cond) and not isinstance(a, Cond):
                b = b2n(b)
            return prove(name, a, b, c)

    def holds(self, name, c):
        return prove_cond(name, c)

    def frame(self, *ts):
        """Inputs are unchanged."""
        for nm, (t, fn, ps) in ST.inputs.items():
            if t.st.fn is fn:
                ob("frame: %s not written" % nm, True)
                continue
            idx = tuple(fresh("i") for _ in t.st.dims)
            rng = [c for i, n in zip(idx, t.st.dims) for c in (le(0, i), lt(i, n))]
            with under(*rng) as c:
                prove("frame: %s keeps its values" % nm, t.st.get(idx), t.st.get(idx, fn), c)


def reset():
    ST.reset()
    TR.cache.clear()
    TR.open.clear()
    SCHEMAS.clear()
    prover.UNFOLD.clear()
    del prover.LEMMAS[:]
    storch.LOG2.clear()
    prover.reset()


def run_contract(c, repo, budget=60):
    """List of obligation dicts of one contract."""
    t0 = time.time()
    reset()
    del BOUNDED[:]
    EXECUTED.clear()
    FILES.clear()
    monitor()
    obls = {}
    order = []
    frame = Frame()
    paths = 0
    err = None
    infeasible = 0

    def add(o):
        o.name = "%s / %s" % (c.name, o.name)
        k = o.name
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if k not in obls:
            obls[k] = o
            order.append(k)
        elif rank[o.status] > rank[obls[k].status]:
            obls[k] = o
    while True:
        ST.reset()
        SCHEMAS.clear()
        TR.cache.clear()
        TR.open.clear()
        prover.UNFOLD.clear()
        T.APPNORM.clear()
        del prover.LEMMAS[:]
        storch.LOG2.clear()
        del storch.GRAD_RULES[:]
        ST.deadline = t0 + budget
        ST.fn = c.functions[0] if c.functions else c.name
        frame.pos = 0
        ST.frames = [frame]
        dead = False
        E = Env(repo)
        try:
            c.fn(E)
        except Infeasible:
            dead = True
        except Unsupported as e:
            ST.quiet = 0
            if not ST.ctx.dead():
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if f.filename.startswith("torch_struct")]
                ob("verification condition generation", False, "unsupported: %s at %s" % (
                    e, "%s:%s" % (loc[-1].filename, loc[-1].lineno) if loc else "?"), status="unknown")
        except Exception as e:
            ST.quiet = 0
            if not ST.ctx.dead():
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if f.filename.startswith("torch_struct")]
                # only exceptions the modelled program itself raises are verdicts
                own = isinstance(e, (ShadowError, AssertionError)) and bool(loc) and (isinstance(e, ShadowError) or tb[-1].filename.startswith("torch_struct"))
                st = "refuted" if own and not ST.weak else "unknown"
                ob("no exception", False, "%s: %s at %s\n%s" % (type(e).__name__, e, loc[-1] if loc else "?",
                                                               "" if own else "".join(traceback.format_tb(e.__traceback__)[-4:])),
                   size_model(ST.ctx), status=st)
        dead = dead or ST.ctx.dead()
        if not dead:
            ST.quiet = 0
            E.heap()
            ob("no value is rounded to the default precision", not ST.narrowed, ("" if not ST.narrowed else "input precision stored in a default-precision tensor at " + ", ".join(sorted(set(ST.narrowed)))), status="unknown" if ST.narrowed else None)
            paths += 1
            for o in ST.obls:
                add(o)
        for f in E.loader.files:
            FILES[os.path.relpath(f, repo)] = hashlib.sha256(open(f, "rb").read()).hexdigest()[:16]
        frame.pos = 0
        if not frame.advance():
            break
        if time.time() - t0 > budget or paths > 400:
            add(Obl("all paths explored", ST.fn, "unknown", "%d paths in %.0f s" % (paths, time.time() - t0)))
            break
    if paths == 0 and not obls:
        obls["x"] = Obl(c.name + " / precondition satisfiable", c.name, "unknown", "no feasible path")
        order.append("x")
    return [obls[k].dict() for k in order], paths, time.time() - t0
