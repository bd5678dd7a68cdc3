"""Execution state of the verifier: path context, decisions, heap journal, obligations."""
import time
from contextlib import contextmanager
from .terms import *
from .ctx import Ctx, STATS
from . import prover


class Unsupported(Exception):
    """The construct is outside the verified fragment: no verdict."""


class Infeasible(Exception):
    """The current path is infeasible."""


class ShadowError(RuntimeError):
    """torch would raise on this path."""


class LoopAbort(Exception):
    pass


class Frame:
    """Decisions taken on one exploration level (whole run or one loop body)."""

    def __init__(self):
        self.trace = []     # [cond, choice, other_open]
        self.pos = 0
        self.level = ST.level if "ST" in globals() else 0

    def choose(self, c):
        if self.pos < len(self.trace):
            t = self.trace[self.pos]
            self.pos += 1
            if t[0] is not c:
                # deterministic re-execution up to fresh names
                t[0] = c
            return t[1]
        self.trace.append([c, True, True])
        self.pos += 1
        return True

    def advance(self):
        """Move to the next unexplored path; False when exhausted."""
        while self.trace:
            t = self.trace[-1]
            if t[2]:
                t[1], t[2] = False, False
                self.pos = 0
                return True
            self.trace.pop()
        self.pos = 0
        return False


class Obl:
    def __init__(self, name, function, status, detail="", model=None, backend="vt+z3"):
        self.name, self.function, self.status, self.detail, self.model, self.backend = \
            name, function, status, detail, model, backend

    def dict(self):
        return {"name": self.name, "function": self.function, "status": self.status, "detail": str(self.detail)[:2000],
                "model": self.model, "backend": self.backend}


class State:
    def __init__(self):
        self.reset()

    level = 0
    track_default = False   # elements cut from the autograd graph stay visible as det(...)
    raw = False             # comparisons are not decided (test of a while loop)

    def reset(self):
        self.level = 0
        self.raw = False
        self.ctx = Ctx()
        self.frames = [Frame()]
        self.journal = []
        self.obls = []
        self.fn = "?"
        self.templates = []
        self.track_det = self.track_default
        self.gradmode = True
        self.stamp = 0
        self.loopdepth = 0
        self.quiet = 0
        self.deadline = None
        self.used = set()
        self.rng = []
        self.ties = []          # maxima whose gradient is shared between tied arguments
        self.inputs = {}
        self.loops = 0
        self.weak = False
        self.nonzeros = []
        self.search = []        # instances of preconditions a search loop may use
        self.narrowed = []
        self.impure = []
        self.caching = 0
        self.grads = []
        self.loopstack = []
        self.peels = []         # depths at which the first iteration of a loop is being run on its own

    def tick(self):
        self.stamp += 1
        return self.stamp

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget of this contract exhausted")


ST = State()


@contextmanager
def under(*conds):
    old = ST.ctx
    ST.ctx = old.plus(*conds)
    ST.level += 1
    try:
        yield ST.ctx
    finally:
        ST.ctx = old
        ST.level -= 1


def paths(f):
    """Evaluate f for a generic element: all branches taken inside, as [(path condition, value)]."""
    ST.frames.append(Frame())
    old = ST.ctx
    mark, stamp = len(ST.journal), ST.stamp
    out = []
    try:
        while True:
            ST.frames[-1].pos = 0
            ST.ctx = old
            try:
                v = f()
                out.append((conj(*[c for c in ST.ctx.facts if c not in old.fset]), v))
            except Infeasible:
                pass
            if any(o.id <= stamp for o, _ in ST.journal[mark:]):
                raise Unsupported("side effects in an element function")
            if not ST.frames[-1].advance():
                break
            if len(out) > 40:
                raise Unsupported("too many branches in an element function")
    finally:
        ST.frames.pop()
        ST.ctx = old
    if not out:
        raise Infeasible()
    return out


def decide(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    c = prover.simp_cond(c, ST.ctx)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return ST.ctx.decide(c)


def truth(c):
    """Python truth value of a condition: decided by the context or forked."""
    d = decide(c)
    if d is not None:
        return d
    ST.check_time()
    if ST.level > ST.frames[-1].level:
        raise Unsupported("undecided branch on %r for a generic element" % (c,))
    ch = ST.frames[-1].choose(c)
    ST.ctx = ST.ctx.plus(c if ch else neg(c))
    if ST.ctx.dead():
        raise Infeasible()
    return ch


def same(p, q):
    p, q = P(p), P(q)
    if p is q:
        return True
    return ST.ctx.entails(eq(p, q))


def assume(*conds):
    ST.ctx = ST.ctx.plus(*conds)


def ob(name, ok, detail="", model=None, status=None, backend="vt+z3"):
    if ST.quiet:
        return
    st = status or ("proved" if ok else "unknown" if ST.weak else "refuted")
    ST.obls.append(Obl(name, ST.fn, st, detail, model, backend))


SIZES = []


def size_model(ctx, cond=TRUE):
    """Small model of the size variables for the concrete search."""
    try:
        m = ctx.model(cond)
    except Exception:
        return None
    if m is None:
        return None
    return {k: v for k, v in m.items() if "!" not in k and len(v) < 12}


def prove(name, a, b, ctx=None, soft=False):
    """Record the obligation a == b."""
    ctx = ctx if ctx is not None else ST.ctx
    ST.check_time()
    try:
        prover.prove_eq(a, b, ctx)
        ob(name, True)
        return True
    except prover.Fail as e:
        if soft:
            return False
        from . import evalterm
        bad = None if ST.weak or ST.quiet else evalterm.refute(a, b, e.ctx or ctx) or evalterm.refute(a, b, ctx)
        ob(name, False, "%s%s\n  code: %r\n  spec: %r\n  stuck at: %r\n       vs  %r" % (
            "the two sides differ in the model %r\n  " % bad if bad else "", e, a, b, e.a, e.b),
           size_model(e.ctx or ctx), status="refuted" if bad else "unknown")
        return False


def prove_cond(name, c, ctx=None, soft=False):
    ctx = ctx if ctx is not None else ST.ctx
    c2 = prover.simp_cond(c, ctx)
    if c2 is TRUE or ctx.entails(c2):
        ob(name, True)
        return True
    if not soft:
        from . import evalterm
        bad = None if ST.weak or ST.quiet else evalterm.refute(c2, None, ctx.plus(neg(c2)))
        ob(name, False, "not entailed: %r" % (c2,), size_model(ctx, neg(c2)), status="refuted" if bad else "unknown")
    return False
