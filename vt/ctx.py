"""Logical contexts: a set of assumed conditions with SMT-backed entailment (z3)."""
import itertools
import time
import z3
from .terms import *
from . import terms as T

STATS = {"queries": 0, "cached": 0, "time": 0.0, "unknown": 0}
_ids = itertools.count(1)

# name -> function(args) -> list of Cond, instantiated for every occurrence of the function
SCHEMAS = {}

z3.set_param("smt.random_seed", 0)


class Later:
    """Facts of a term whose translation is still in progress (schemas may mention their own term)."""

    def __init__(self, facts):
        self.facts = facts


class Tr:
    """Translation of terms to z3 with side facts."""

    def __init__(self):
        self.cache = {}
        self.open = set()   # terms whose schema instances are being translated

    def poly(self, p, facts):
        r = self.cache.get(p)
        if r is None:
            fs = []
            r = self._poly(p, fs)
            self.cache[p] = (r, fs)
        else:
            r, fs = r
            facts += fs
            return r
        facts += fs
        return r

    def _poly(self, p, facts):
        isint = is_int(p)
        den = 1
        for _, c in p.items:
            if isinstance(c, Fraction):
                den = den * c.denominator // _gcd(den, c.denominator)
        out = []
        sort_int = all(a.sort == "I" for m, _ in p.items for a, _ in m)
        for mono, c in p.items:
            if sort_int:
                c2 = z3.IntVal(int(c * den))
            else:
                c2 = z3.RealVal(str(Fraction(c)))
            t = self.mono(mono, facts, sort_int)
            out.append(c2 if t is None else (t if (c * den if sort_int else c) == 1 else c2 * t))
        if not out:
            return z3.IntVal(0)
        s = out[0]
        for o in out[1:]:
            s = s + o
        return s if sort_int or True else s

    def exact(self, p, facts):
        """z3 expression equal to p (`poly` scales integer polynomials by their common denominator)."""
        den = 1
        for _, c in p.items:
            if isinstance(c, Fraction):
                den = den * c.denominator // _gcd(den, c.denominator)
        e = self.poly(p, facts)
        if den == 1 or not all(a.sort == "I" for m, _ in p.items for a, _ in m):
            return e
        if p.is_const():
            return z3.RealVal(str(Fraction(p.const())))
        q = z3.Int("q!%d" % p.id)
        facts.append(q * den == e)
        return q

    def mono(self, mono, facts, sort_int):
        if not mono:
            return None
        flat = []
        for a, e in mono:
            if e < 0:
                flat.append(("inv", a))
            else:
                flat += [a] * min(e, 3) if e <= 3 else [("pow", a, e)]
        if len(flat) == 1 and isinstance(flat[0], Atom):
            t = self.atom(flat[0], facts)
            return t if sort_int else _toreal(t)
        key = ("mono", mono, sort_int)
        r = self.cache.get(key)
        if r is None:
            name = "m!%s" % "_".join("%d^%d" % (a.id, e) for a, e in mono)
            v = z3.Int(name) if sort_int else z3.Real(name)
            fs = []
            if sort_int and len(flat) == 2 and all(isinstance(f, Atom) for f in flat):
                x, y = self.atom(flat[0], fs), self.atom(flat[1], fs)
                fs += [z3.Implies(z3.And(x >= 0, y >= 0), v >= 0),
                       z3.Implies(z3.And(x >= 1, y >= 0), v >= y),
                       z3.Implies(z3.And(y >= 1, x >= 0), v >= x),
                       z3.Implies(x == 0, v == 0), z3.Implies(y == 0, v == 0),
                       z3.Implies(x == 1, v == y), z3.Implies(y == 1, v == x)]
            elif sort_int:
                sub = mono[:-1] if mono[-1][1] == 1 else mono[:-1] + ((mono[-1][0], mono[-1][1] - 1),)
                x = self.mono(sub, fs, True)
                y = self.atom(mono[-1][0], fs)
                fs += [z3.Implies(z3.And(x >= 0, y >= 0), v >= 0),
                       z3.Implies(z3.And(x >= 1, y >= 0), v >= y),
                       z3.Implies(z3.And(y >= 1, x >= 0), v >= x)]
            self.cache[key] = r = (v, fs)
        facts += r[1]
        return r[0]

    def atom(self, a, facts):
        r = self.cache.get(a)
        if r is not None:
            if a in self.open:
                facts.append(Later(r[1]))
            else:
                facts += r[1]
            return r[0]
        fs = []
        k = a.kind
        if k == "var":
            v = z3.Int(a.args[0]) if a.sort == "I" else z3.Real(a.args[0])
        elif k == "app" and all(isinstance(x, Poly) and is_int(x) for x in a.args[1]):
            srt = z3.IntSort() if a.sort == "I" else z3.RealSort()
            f = z3.Function(a.args[0], *([z3.IntSort()] * len(a.args[1]) + [srt])) if a.args[1] else None
            v = f(*[self.exact(x, fs) for x in a.args[1]]) if f is not None else (
                z3.Int(a.args[0]) if a.sort == "I" else z3.Real(a.args[0]))
        elif k == "ite":
            v = z3.If(self.cond(a.args[0], fs), _coerce(self.exact(a.args[1], fs), a.sort),
                      _coerce(self.exact(a.args[2], fs), a.sort))
        elif k == "pow2":
            v = z3.Int("pow2!%d" % a.id)
            e = self.poly(a.args[0], fs)
            fs += [z3.Implies(e >= 0, v >= 1), z3.Implies(e >= 0, v >= e + 1), z3.Implies(e == 0, v == 1)]
        elif k == "div" and a.args[1].const() is not None and a.args[1].const() > 0:
            v = self.poly(a.args[0], fs) / z3.IntVal(a.args[1].const())
        elif k == "mod" and a.sort == "I" and a.args[1].const() is not None and a.args[1].const() > 0:
            v = self.poly(a.args[0], fs) % z3.IntVal(a.args[1].const())
        elif k == "div" or (k == "mod" and a.sort == "I"):
            x, y = self.poly(a.args[0], fs), self.poly(a.args[1], fs)
            v = z3.Int("%s!%d" % (k, a.id))
            if k == "mod":
                fs += [z3.Implies(y > 0, z3.And(v >= 0, v < y)), z3.Implies(z3.And(x >= 0, x < y), v == x)]
            else:
                fs += [z3.Implies(z3.And(y > 0, x >= 0), z3.And(v >= 0, v <= x)),
                       z3.Implies(z3.And(x >= 0, x < y), v == 0)]
                o = a.args[0].as_atom()
                if o is not None and o.kind in ("argmax", "ordix", "cat") and len(o.args[-1].args[1]) == 2 and o.args[-1].args[1][1] is a.args[1]:
                    # row of a position in a matrix
                    n_ = self.poly(o.args[-1].args[1][0], fs)
                    fs.append(z3.Implies(z3.And(n_ >= 1, y >= 1), z3.And(v >= 0, v < n_)))
        else:
            nm = "a!%s!%d" % (k, a.id)
            v = z3.Int(nm) if a.sort == "I" else z3.Real(nm)
            if k == "exp":
                fs.append(v > 0)
            if k == "bsum" and _count(a.args[3]):
                # number of positions with a property: between 0 and all, at least 1 if the first one has it
                n_ = self.poly(a.args[2], fs)
                first = self.cond(eq(subst(a.args[3], {a.args[0]: P(0)}), 1), fs)
                fs.append(z3.Implies(n_ >= 1, z3.And(v >= 0, v <= n_, z3.Implies(first, v >= 1))))
            if k in ("argmax", "ordix", "cat") and a.args[-1].kind == "mat":
                size = P(1)
                for d in a.args[-1].args[1]:
                    size = size * d
                n_ = self.poly(size, fs)
                fs.append(z3.Implies(n_ >= 1, z3.And(v >= 0, v < n_)))
            if k in ("max", "min") and len(a.args) == 1 and a.args[0].kind == "mat" and len(a.args[0].args[0]) == 1:
                # attained at some position of a non-empty family, and a bound of every element
                (mv,), (mn,), body = a.args[0].args
                w = P(var("w!%d" % a.id))
                n_ = self.poly(mn, fs)
                bw = self.exact(subst(body, {mv: w}), fs)
                fs.append(z3.Implies(n_ >= 1, z3.And(self.poly(w, fs) >= 0, self.poly(w, fs) < n_, v == bw)))
        self.cache[a] = (v, fs)
        if k == "app" and a.args[0] in SCHEMAS:
            self.open.add(a)
            for c in SCHEMAS[a.args[0]](a.args[1], P(a)):
                sub = []
                fs.append(self.cond(c, sub))
                fs += sub
            self.open.discard(a)
        facts += fs
        return v

    def cond(self, c, facts):
        r = self.cache.get(c)
        if r is not None:
            if c in self.open:
                facts.append(Later(r[1]))
            else:
                facts += r[1]
            return r[0]
        fs = []
        k, a = c.kind, c.args
        if k == "true":
            v = z3.BoolVal(True)
        elif k == "false":
            v = z3.BoolVal(False)
        elif k == "le0":
            v = self.poly(a[0], fs) <= 0
        elif k == "eq0":
            v = self.poly(a[0], fs) == 0
        elif k == "not":
            v = z3.Not(self.cond(a[0], fs))
        elif k == "and":
            v = z3.And(*[self.cond(x, fs) for x in a])
        elif k == "or":
            v = z3.Or(*[self.cond(x, fs) for x in a])
        elif k == "bapp" and a[1] and all(isinstance(x, Poly) and is_int(x) for x in a[1]):
            f = z3.Function(a[0], *([z3.IntSort()] * len(a[1]) + [z3.BoolSort()]))
            v = f(*[self.exact(x, fs) for x in a[1]])
        elif k in ("all", "any") and _simple(a[3]):
            x = z3.Int("%s!q%d" % (a[0].args[0], c.id))
            body = subst(a[3], {a[0]: P(var("%s!q%d" % (a[0].args[0], c.id)))})
            inner = []
            b = self.cond(body, inner)
            rng = z3.And(self.poly(a[1], fs) <= x, x < self.poly(a[2], fs))
            v = z3.ForAll([x], z3.Implies(rng, b)) if k == "all" else z3.Exists([x], z3.And(rng, b))
        else:
            v = z3.Bool("c!%s!%d" % (k, c.id))
        self.cache[c] = (v, fs)
        if k == "bapp" and a[0] in SCHEMAS:
            self.open.add(c)
            for d in SCHEMAS[a[0]](a[1], c):
                sub = []
                fs.append(self.cond(d, sub))
                fs += sub
            self.open.discard(c)
        facts += fs
        return v


def _count(body):
    """Body of a sum that is the indicator of a condition."""
    i = body.as_atom()
    return i is not None and i.kind == "ite" and {i.args[1].const(), i.args[2].const()} == {0, 1}


def _simple(body):
    return True


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _toreal(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def _coerce(t, sort):
    if sort == "R" and z3.is_int(t):
        return z3.ToReal(t)
    return t


TR = Tr()


_prods = {}


def products(c):
    """Pairs of integer atoms multiplied in the linear arithmetic of a condition."""
    r = _prods.get(c)
    if r is None:
        out = set()
        if c.kind in ("and", "or", "not"):
            for x in c.args:
                out |= products(x)
        elif c.kind in ("le0", "eq0"):
            for m, _ in c.args[0].items:
                if sum(e for _, e in m) == 2 and all(e > 0 and a.sort == "I" for a, e in m):
                    out.add((m[0][0], m[-1][0]))
        r = _prods[c] = frozenset(out)
    return r


class Ctx:
    def __init__(self, facts=()):
        self.id = next(_ids)
        self.facts = tuple(facts)
        self.fset = frozenset(self.facts)
        self.cache = {}
        self.solver = None
        self.simp = {}
        self.kids = {}
        self._dead = None
        self.eqs = None
        self.prods = None

    def plus(self, *conds):
        new = []
        for c in conds:
            if c is TRUE:
                continue
            for x in (c.args if c.kind == "and" else (c,)):
                if x not in self.fset and x not in new:
                    new.append(x)
        if not new:
            return self
        key = tuple(new)
        k = self.kids.get(key)
        if k is None:
            k = Ctx(self.facts + key)
            self.kids[key] = k
        return k

    def _solver(self):
        if self.solver is None:
            s = z3.Solver()
            s.set("timeout", 5000)
            side = []
            for f in self.facts:
                s.add(TR.cond(f, side))
            for f in _dedup(side):
                s.add(f)
            self.solver = s
        return self.solver

    def check(self, cond):
        """'sat' / 'unsat' / 'unknown' for facts & cond."""
        s = self._solver()
        side = []
        e = TR.cond(cond, side)
        t0 = time.time()
        s.push()
        s.add(e)
        for f in _dedup(side):
            s.add(f)
        r = str(s.check())
        if r == "sat":
            ls = self.monotone(cond)
            if ls:
                for f in _dedup(ls):
                    s.add(f)
                r = str(s.check())
        s.pop()
        STATS["time"] += time.time() - t0
        STATS["queries"] += 1
        if r == "unknown":
            STATS["unknown"] += 1
        return r

    def monotone(self, cond):
        """Multiplication is monotone: v*w against u*w for products of the query and the facts that share a factor."""
        if self.prods is None:
            self.prods = frozenset().union(*[products(f) for f in self.facts]) if self.facts else frozenset()
        mine = products(cond)
        ps = sorted(self.prods | mine, key=lambda m: [a.id for a in m])
        if len(ps) < 2 or len(ps) > 14:
            return []
        out = []
        for i, m in enumerate(ps):
            for q in ps[i + 1:]:
                for w in m:
                    if w not in q:
                        continue
                    v, u = m[1 - m.index(w)], q[1 - q.index(w)]
                    mono = lambda t: TR.mono(((t[0], 2),) if t[0] is t[1] else ((t[0], 1), (t[1], 1)), out, True)
                    x, y, c = TR.atom(v, out), TR.atom(u, out), TR.atom(w, out)
                    xm, ym = mono(m), mono(q)
                    out += [z3.Implies(z3.And(c >= 0, x < y), xm <= ym - c), z3.Implies(z3.And(c >= 0, y < x), ym <= xm - c),
                            z3.Implies(x == y, xm == ym)]
                    break
        return out

    def model(self, cond=TRUE):
        s = self._solver()
        side = []
        e = TR.cond(cond, side)
        s.push()
        s.add(e)
        for f in _dedup(side):
            s.add(f)
        r = s.check()
        m = None
        if r == z3.sat:
            mm = s.model()
            m = {str(d): str(mm[d]) for d in mm.decls()}
        s.pop()
        return m

    def entails(self, cond):
        if cond is TRUE or cond in self.fset:
            return True
        if cond is FALSE:
            return self.dead()
        r = self.cache.get(cond)
        if r is not None:
            STATS["cached"] += 1
            return r
        r = self.check(neg(cond)) == "unsat"
        self.cache[cond] = r
        return r

    def decide(self, cond):
        """True / False / None."""
        if self.entails(cond):
            return True
        if self.entails(neg(cond)):
            return False
        return None

    def dead(self):
        if self._dead is None:
            self._dead = self.check(TRUE) == "unsat"
        return self._dead


def _dedup(fs):
    seen = set()
    out = []
    fs = list(fs)
    late = set()
    for f in fs:
        if isinstance(f, Later):
            if id(f.facts) not in late:
                late.add(id(f.facts))
                fs += f.facts
            continue
        i = f.get_id()
        if i not in seen:
            seen.add(i)
            out.append(f)
    return out
