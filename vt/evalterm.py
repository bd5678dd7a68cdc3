"""Numeric evaluation of verification conditions in a concrete small model.

An obligation the prover cannot close is only reported as refuted when its two sides evaluate to different numbers in a model of
its hypotheses; otherwise it stays open.  Input functions get pseudo-random values, specification functions their definition, the
abstract semiring is interpreted as the non-negative reals with + and x (a commutative semiring)."""
import hashlib
import math
import numpy
import z3
from .terms import *
from .ctx import TR, SCHEMAS, _dedup
from . import prover


class Skip(Exception):
    pass


def rnd(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:6], "big") / float(1 << 48)


class Ev:
    def __init__(self, env, funs, seed):
        self.env, self.funs, self.seed = env, funs, seed
        self.memo = {}
        self.steps = 0

    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise Skip("too large")

    def key(self, x):
        if isinstance(x, (Poly,)):
            return round(self.num(x), 9)
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, V):
            return round(self.v(x), 9)
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if isinstance(x, Atom):
            return round(self.num(P(x)), 9)
        return x

    # -- numbers
    def num(self, p):
        r = 0
        for mono, c in p.items:
            t = c if isinstance(c, int) else float(c)
            for a, e in mono:
                x = self.atom(a)
                if e < 0 and x == 0:
                    raise Skip("division by zero")
                t = t * x ** e
            r = r + t
        return r

    def bound(self, v, x, f):
        old = self.env.get(v, None)
        self.env[v] = x
        try:
            return f()
        finally:
            if old is None:
                del self.env[v]
            else:
                self.env[v] = old

    def rng(self, lo, hi):
        a, b = self.num(lo), self.num(hi)
        if b - a > 60:
            raise Skip("range")
        return range(int(a), int(b))

    def atom(self, a):
        self.tick()
        k = a.kind
        if k == "var":
            if a in self.env:
                return self.env[a]
            if a.sort == "I":
                raise Skip("free variable %r" % a)
            self.env[a] = 0.3 + rnd(self.seed, a.args[0])
            return self.env[a]
        if k == "app":
            args = tuple(self.key(x) for x in a.args[1])
            mk = (a.args[0], args)
            if a.args[0] in prover.UNFOLD:
                if mk not in self.memo:
                    ints = [P(int(x)) if isinstance(x, (int, float)) and float(x).is_integer() else y for x, y in zip(args, a.args[1])]
                    u = prover.UNFOLD[a.args[0]](*ints)
                    if u is None:
                        raise Skip("no definition")
                    self.memo[mk] = self.num(P(u))
                return self.memo[mk]
            if a.sort == "I":
                return self.intfun(a.args[0], args)
            return 0.2 + 1.3 * rnd(self.seed, a.args[0], args)
        if k == "ite":
            return self.num(a.args[1] if self.cond(a.args[0]) else a.args[2])
        if k == "exp":
            return math.exp(min(self.num(a.args[0]), 50.0))
        if k == "log":
            x = self.num(a.args[0])
            if x <= 0:
                raise Skip("log")
            return math.log(x)
        if k == "det":
            return self.num(a.args[0])
        if k == "pow2":
            return 2 ** int(self.num(a.args[0]))
        if k == "div":
            return self.num(a.args[0]) // self.num(a.args[1])
        if k == "mod":
            return self.num(a.args[0]) % self.num(a.args[1])
        if k == "recip":
            x = self.num(a.args[0])
            if x == 0:
                raise Skip("recip")
            return 1.0 / x
        if k == "sqrt":
            return math.sqrt(max(self.num(a.args[0]), 0.0))
        if k == "trunc":
            return int(self.num(a.args[0]))
        if k in ("bsum", "bprod", "bmax", "bmin"):
            vs = [self.bound(a.args[0], i, lambda: self.num(a.args[3])) for i in self.rng(a.args[1], a.args[2])]
            if k == "bsum":
                return sum(vs)
            if k == "bprod":
                return math.prod(vs)
            if not vs:
                raise Skip("empty")
            return max(vs) if k == "bmax" else min(vs)
        if k == "comp":
            return 0.1 + rnd("comp", self.num(a.args[0]), round(self.v(a.args[1]), 7))
        if k == "ord":
            xs = sorted(self.family(a.args[1]), reverse=True)
            j = int(self.num(a.args[0]))
            if not 0 <= j < len(xs):
                raise Skip("ord")
            return xs[j]
        if k == "argmax":
            xs = self.family(a.args[0])
            return xs.index(max(xs))
        if k in ("max", "min") and a.args[0].kind == "mat":
            xs = self.family(a.args[0])
            if not xs:
                raise Skip("empty")
            return max(xs) if k == "max" else min(xs)
        if k in ("max2", "maxn"):
            return max(self.num(x) for x in a.args)
        if k in ("logdet", "inv") and len(a.args[0].args[0]) == 2:
            xs = self.family(a.args[0])
            n = int(round(len(xs) ** 0.5))
            if not n:
                raise Skip("empty")
            m = numpy.array(xs, dtype=float).reshape(n, n)
            if k == "logdet":
                s, ld = numpy.linalg.slogdet(m)
                if s <= 0:
                    raise Skip("logdet")
                return float(ld)
            if abs(numpy.linalg.det(m)) < 1e-9:
                raise Skip("singular")
            return float(numpy.linalg.inv(m)[int(self.num(P(a.args[1]))), int(self.num(P(a.args[2])))])
        if k == "lse":
            vs = [self.bound(a.args[0], i, lambda: self.num(a.args[3])) for i in self.rng(a.args[1], a.args[2])]
            if not vs:
                raise Skip("empty")
            return max(vs) + math.log(sum(math.exp(v - max(vs)) for v in vs))
        if k in ("lm", "upd"):
            return 0.2 + 1.3 * rnd(self.seed, k, tuple(self.arg(x) for x in a.args))
        if k == "cat":
            u = self.num(P(a.args[0])) % 1.0
            ps = self.family(a.args[1])
            for i, q in enumerate(ps):
                u -= q
                if u < 0:
                    return i
            return len(ps) - 1
        raise Skip("atom " + k)

    def arg(self, x):
        """Value of an argument of an uninterpreted function: numbers, tuples, arrays."""
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if isinstance(x, Atom) and x.kind == "mat":
            return tuple(int(self.num(d)) for d in x.args[1]), tuple(round(v, 7) for v in self.family(x))
        return round(self.num(P(x)), 7)

    def family(self, m):
        vs, dims, body = m.args
        out = []

        def go(i):
            if i == len(vs):
                out.append(self.num(P(body)) if not isinstance(body, Cond) else float(self.cond(body)))
                return
            for x in self.rng(P(0), dims[i]):
                self.bound(vs[i], x, lambda: go(i + 1))
        go(0)
        return out

    def intfun(self, name, args):
        mk = ("I", name, args)
        if mk in self.memo:
            return self.memo[mk]
        if (name, args) in self.funs:
            r = self.funs[(name, args)]
        elif name in SCHEMAS:
            pa = [P(int(x)) for x in args]
            lo, hi = -50, 50
            x = P(var("schema!val"))
            ok = [v for v in range(-4, 12) if all(self.bound(x.as_atom(), v, lambda: self.cond(c)) for c in SCHEMAS[name](pa, x))]
            if not ok:
                raise Skip("schema")
            r = ok[int(rnd(self.seed, name, args) * len(ok))]
        else:
            r = int(rnd(self.seed, name, args) * 5)
        self.memo[mk] = r
        return r

    # -- conditions
    def cond(self, c):
        self.tick()
        k, a = c.kind, c.args
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "le0":
            return self.num(a[0]) <= 1e-9
        if k == "eq0":
            return abs(self.num(a[0])) <= 1e-9
        if k == "not":
            return not self.cond(a[0])
        if k == "and":
            return all(self.cond(x) for x in a)
        if k == "or":
            return any(self.cond(x) for x in a)
        if k == "bapp":
            return rnd(self.seed, a[0], tuple(self.key(x) for x in a[1])) < 0.5
        if k in ("all", "any"):
            g = (self.bound(a[0], i, lambda: self.cond(a[3])) for i in self.rng(a[1], a[2]))
            return all(g) if k == "all" else any(g)
        raise Skip("cond " + k)

    # -- semiring values
    def v(self, x):
        self.tick()
        k, a = x.kind, x.args
        if k == "zero":
            return 0.0
        if k == "one":
            return 1.0
        if k == "in":
            return 0.3 + rnd(self.seed, "in", tuple(round(self.num(P(p)), 7) for p in a))
        if k == "app":
            args = tuple(self.key(y) for y in a[1])
            mk = ("V", a[0], args)
            if mk not in self.memo:
                if a[0] in prover.UNFOLD:
                    ints = [P(int(y)) if isinstance(y, (int, float)) else z for y, z in zip(args, a[1])]
                    u = prover.UNFOLD[a[0]](*ints)
                    if u is None:
                        raise Skip("no definition")
                    self.memo[mk] = None
                    self.memo[mk] = self.v(u)
                else:
                    self.memo[mk] = 0.2 + rnd(self.seed, a[0], args)
            if self.memo[mk] is None:
                raise Skip("ill-founded")
            return self.memo[mk]
        if k == "ite":
            return self.v(a[1] if self.cond(a[0]) else a[2])
        if k == "plus":
            return sum(self.v(y) for y in a)
        if k == "times":
            return math.prod(self.v(y) for y in a)
        if k == "sum":
            return sum(self.bound(a[0], i, lambda: self.v(a[3])) for i in self.rng(a[1], a[2]))
        if k == "det":
            return self.v(a[0])
        if k == "raw":
            return 0.1 + rnd("raw", round(self.num(a[0]), 7))
        raise Skip("value " + k)


def atoms_in(x, seen, out):
    if x in seen:
        return
    seen.add(x)
    if isinstance(x, Atom):
        out.append(x)
    for c in subterms(x):
        if isinstance(c, tuple):
            for y in c:
                if isinstance(y, (Poly, Cond, V, Atom)):
                    atoms_in(y, seen, out)
        else:
            atoms_in(c, seen, out)


def models(ctx, count=3):
    """Small models of a context: integer variables and integer functions."""
    s = z3.Solver()
    s.set("timeout", 3000)
    side = []
    seen, ats = set(), []
    for f in ctx.facts:
        s.add(TR.cond(f, side))
        atoms_in(f, seen, ats)
    vs = [a for a in ats if a.kind == "var" and a.sort == "I" and not a.args[0].startswith("_")]
    zs = [(a, z3.Int(a.args[0])) for a in vs]
    ap = [a for a in ats if a.kind == "app" and a.sort == "I" and all(isinstance(x, Poly) and all(not str(w).startswith("_") for w in fv(x)) for x in a.args[1])]
    tr = [(a, TR.atom(a, side), [TR.exact(x, side) for x in a.args[1]]) for a in ap]
    for f in _dedup(side):
        s.add(f)
    for hi in (3, 4, 6, 12):
        s.push()
        for a, z in zs:
            s.add(z <= hi, z >= -hi)
        n = 0
        while n < count and s.check() == z3.sat:
            m = s.model()
            env = {a: m.eval(z, model_completion=True).as_long() for a, z in zs}
            funs = {}
            for a, z, xs in tr:
                try:
                    funs[(a.args[0], tuple(float(m.eval(x, model_completion=True).as_long()) for x in xs))] = m.eval(z, model_completion=True).as_long()
                except AttributeError:
                    pass
            yield env, funs
            n += 1
            if not zs:
                break
            s.add(z3.Or(*[z != env[a] for a, z in zs]))
        s.pop()
        if n:
            return


def refute(a, b, ctx):
    """A model of ctx in which the two sides have different values, or None."""
    try:
        for env, funs in models(ctx):
            for seed in (1, 2):
                ev = Ev(dict(env), funs, seed)
                try:
                    if not all(ev.cond(f) for f in ctx.facts):
                        continue
                    if isinstance(a, Cond):
                        d = ev.cond(a) != (ev.cond(b) if b is not None else True)
                    elif isinstance(a, V):
                        x, y = ev.v(a), ev.v(b)
                        d = abs(x - y) > 1e-6 * (1 + abs(x) + abs(y))
                    else:
                        x, y = ev.num(P(a)), ev.num(P(b))
                        d = abs(x - y) > 1e-6 * (1 + abs(x) + abs(y))
                except (Skip, OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
                    continue
                if d:
                    return {repr(k): v for k, v in env.items()}
    except Exception:
        return None
    return None
