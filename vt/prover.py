"""Simplification under a context and equality of terms modulo the laws of a commutative semiring,
linear/polynomial arithmetic and extensionality of bounded sums."""
import builtins
import itertools
from .terms import *
from . import terms as T
from .ctx import Ctx

# spec functions: name -> unfold(args) -> V/Poly   (definitional unfolding, used on demand)
UNFOLD = {}
# rewriting lemmas: list of functions(term, ctx) -> term or None
LEMMAS = []

def reset():
    _needs.clear()
    _hoist.clear()


FUEL = {"eq": 200000}


class Fail(Exception):
    """Equality could not be established."""

    def __init__(self, msg, ctx=None, a=None, b=None):
        Exception.__init__(self, msg)
        self.ctx, self.a, self.b = ctx, a, b


# ------------------------------------------------------------------------ simplification

def simp(x, ctx):
    if isinstance(x, tuple):
        return tuple(simp(c, ctx) for c in x)
    if not isinstance(x, (Poly, Atom, Cond, V)):
        return x
    if not needs(x):
        return x
    r = ctx.simp.get(x)
    if r is None:
        r = _simp(x, ctx)
        ctx.simp[x] = r
    return r


_needs = {}


def needs(x):
    """Does x contain an ite (or something resolvable)?"""
    if isinstance(x, tuple):
        return any(needs(c) for c in x)
    if not isinstance(x, (Poly, Atom, Cond, V)):
        return False
    r = _needs.get(x)
    if r is None:
        if isinstance(x, (Atom, V)) and x.kind == "ite":
            r = True
        elif isinstance(x, Atom) and x.kind in ("div", "mod"):
            r = True
        else:
            r = any(needs(c) for c in T.subterms(x))
        _needs[x] = r
    return r


def _simp(x, ctx):
    if isinstance(x, Poly):
        r = P(0)
        for mono, c in x.items:
            t = P(c)
            for a, e in mono:
                q = simp(a, ctx)
                q = P(q) if isinstance(q, Atom) else q
                if e < 0:
                    q = recip(q)
                for _ in range(abs(e)):
                    t = t * q
            r = r + t
        return r
    if isinstance(x, Cond):
        return simp_cond(x, ctx)
    k, a = x.kind, x.args
    if k == "ite":
        c = simp_cond(a[0], ctx)
        d = ctx.decide(c)
        if d is True:
            return simp(a[1], ctx)
        if d is False:
            return simp(a[2], ctx)
        mk = nite if isinstance(x, Atom) else vite
        return mk(c, simp(a[1], ctx.plus(c)), simp(a[2], ctx.plus(neg(c))))
    if isinstance(x, Atom):
        if k in T.BIND_ATOMS:
            v = fresh("s", a[0].sort)
            lo, hi = simp(a[1], ctx), simp(a[2], ctx)
            body = simp(subst(a[3], {a[0]: v}), ctx.plus(le(lo, v), lt(v, hi)))
            f = {"bsum": bsum, "bmax": bmax, "bprod": bprod, "lse": lse}[k]
            return f(v.as_atom(), lo, hi, body)
        if k == "mat":
            vs = [fresh("s") for _ in a[0]]
            c2 = ctx.plus(*[conj(le(0, v), lt(v, h)) for v, h in zip(vs, a[1])])
            body = simp(subst(a[2], dict(zip(a[0], vs))), c2)
            return mat([v.as_atom() for v in vs], a[1], body)
        args = simp(a, ctx)
        if k in ("div", "mod"):
            return divmod_simp(k, args, ctx)
        return T.rebuild(x, args)
    # V
    if k == "sum":
        v = fresh("s", a[0].sort)
        lo, hi = simp(a[1], ctx), simp(a[2], ctx)
        body = simp(subst(a[3], {a[0]: v}), ctx.plus(le(lo, v), lt(v, hi)))
        return vsum(v.as_atom(), lo, hi, body)
    return T.rebuild_v(k, simp(a, ctx))


def divmod_simp(k, args, ctx):
    """Resolve (q*b + r) div/mod b when 0 <= r < b is entailed."""
    a, b = args
    r = split_divmod(a, b, ctx)
    if r is not None:
        return r[0] if k == "div" else r[1]
    return idiv(a, b) if k == "div" else imod(a, b)


def split_divmod(a, b, ctx):
    a, b = P(a), P(b)
    if not is_int(a):
        return None
    q, r = P(0), P(0)
    cb = b.const()
    if cb is not None:
        for m, c in a.items:
            if m and isinstance(c, int) and c % cb == 0:
                q = q + mkpoly({m: c // cb})
            else:
                r = r + mkpoly({m: c})
        k = r.const_part()
    else:
        at = b.as_atom()
        if at is None:
            # composite divisor: match syntactically the monomials of b times one factor
            if a is b:
                return P(1), P(0)
            r = a
        else:
            for m, c in a.items:
                d = dict(m)
                if d.get(at, 0) >= 1:
                    d[at] -= 1
                    q = q + mkpoly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda t: t[0].id)): c})
                else:
                    r = r + mkpoly({m: c})
    if ctx.entails(le(0, r)) and ctx.entails(lt(r, b)):
        return q, r
    return None


def simp_cond(c, ctx):
    if c in (TRUE, FALSE):
        return c
    d = ctx.decide(c) if not _has_ite_free(c) else None
    if d is not None:
        return TRUE if d else FALSE
    if c.kind in ("and", "or", "not"):
        return T.rebuild_cond(c.kind, tuple(simp_cond(x, ctx) for x in c.args))
    if c.kind in ("all", "any"):
        return c
    if needs(c):
        c2 = T.rebuild_cond(c.kind, simp(c.args, ctx))
        d = ctx.decide(c2)
        if d is not None:
            return TRUE if d else FALSE
        return c2
    return c


def _has_ite_free(c):
    return False


# ------------------------------------------------------------------------ case splitting

def find_split(x, ctx):
    """An undecided ite condition of x, not depending on a bound variable."""
    if not needs(x):
        return None
    seen = set()
    stack = [(x, frozenset())]
    best = None
    while stack:
        t, bound = stack.pop()
        if isinstance(t, tuple):
            for c in t:
                stack.append((c, bound))
            continue
        if not isinstance(t, (Poly, Atom, Cond, V)) or not needs(t):
            continue
        if (t, bound) in seen:
            continue
        seen.add((t, bound))
        if isinstance(t, (Atom, V)) and t.kind == "ite":
            c = t.args[0]
            if not (fv(c) & bound):
                inner = find_split(c, ctx)
                return inner if inner is not None else first_literal(c, ctx)
        b = T.binders(t)
        nb = bound | frozenset(b) if b else bound
        for c in T.subterms(t):
            stack.append((c, nb))
    return best


def literals(x, ctx):
    """The undecided literals of the ite conditions of x that do not depend on a bound variable."""
    out, seen, stack = set(), set(), [(x, frozenset())]

    def lits(c):
        if c.kind in ("and", "or", "not"):
            for y in c.args:
                lits(y)
        elif ctx.decide(c) is None:
            out.add(c)
    while stack:
        t, bound = stack.pop()
        if isinstance(t, tuple):
            stack.extend((c, bound) for c in t)
            continue
        if not isinstance(t, (Poly, Atom, Cond, V)) or not needs(t) or (t, bound) in seen:
            continue
        seen.add((t, bound))
        if isinstance(t, (Atom, V)) and t.kind == "ite" and not (fv(t.args[0]) & bound):
            lits(t.args[0])
        b = T.binders(t)
        nb = bound | frozenset(b) if b else bound
        stack.extend((c, nb) for c in T.subterms(t))
    return out


def decompose(d, c, ctx, depth, least=6):
    """A sum with many independent case distinctions: prove the summands that share none of them separately;
    otherwise split on the condition most summands share.  (done, condition to split on)"""
    if len(d.items) < least:
        return False, c
    per = [(mono_poly(m, k), literals(tuple(x for x, _ in m), ctx)) for m, k in d.items]
    count = {}
    for _, ls in per:
        for l in ls:
            count[l] = count.get(l, 0) + 1
    if len(count) < least:
        return False, c
    groups = []
    for q, ls in per:
        hit = [g for g in groups if g[1] & ls]
        groups = [g for g in groups if not (g[1] & ls)]
        groups.append((sum((g[0] for g in hit), q), frozenset(ls).union(*[g[1] for g in hit])))
    if len(groups) > 1:
        if all(holds_eq(q, P(0), ctx, depth + 1) for q, _ in groups):
            return True, None
        return False, c
    return False, max(count, key=lambda l: (count[l], l is c))


def mono_poly(m, k):
    r = P(k)
    for x, e in m:
        f = P(x) if e > 0 else recip(P(x))
        for _ in range(abs(e)):
            r = r * f
    return r


def first_literal(c, ctx):
    if c.kind in ("and", "or"):
        for x in c.args:
            if ctx.decide(x) is None:
                return first_literal(x, ctx)
    if c.kind == "not":
        return first_literal(c.args[0], ctx)
    return c


# ------------------------------------------------------------------------ equality

def prove_eq(a, b, ctx, depth=0, hints=None):
    """Raise Fail unless a == b is established under ctx (numbers, conditions or semiring values)."""
    if a is b:
        return
    if ctx.dead():
        return
    if depth > 60:
        raise Fail("depth", ctx, a, b)
    a, b = simp(a, ctx), simp(b, ctx)
    if a is b:
        return
    c = find_split((a, b), ctx)
    if c is not None:
        if isinstance(a, (Poly, Atom)) and isinstance(b, (Poly, Atom)):
            done, c = decompose(P(a) - P(b), c, ctx, depth)
            if done:
                return
        prove_eq(a, b, ctx.plus(c), depth + 1)
        prove_eq(a, b, ctx.plus(neg(c)), depth + 1)
        return
    if isinstance(a, V) and isinstance(b, V):
        return v_eq(a, b, ctx, depth)
    if isinstance(a, Cond) or isinstance(b, Cond):
        a = a if isinstance(a, Cond) else n2b(a)
        b = b if isinstance(b, Cond) else n2b(b)
        return c_eq(a, b, ctx, depth)
    if isinstance(a, Atom):
        a = P(a)
    if isinstance(b, Atom):
        b = P(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return n_eq(a, b, ctx, depth)
    raise Fail("sort mismatch", ctx, a, b)


def holds_eq(a, b, ctx, depth=0):
    try:
        prove_eq(a, b, ctx, depth)
        return True
    except Fail:
        return False


def c_eq(a, b, ctx, depth):
    if a.kind == b.kind and a.kind in ("all", "any"):
        v = fresh("c")
        c2 = ctx.plus(le(a.args[1], v), lt(v, a.args[2]))
        if holds_eq(a.args[1], b.args[1], ctx, depth + 1) and holds_eq(a.args[2], b.args[2], ctx, depth + 1) and \
                holds_eq(subst(a.args[3], {a.args[0]: v}), subst(b.args[3], {b.args[0]: v}), c2, depth + 1):
            return
    if ctx.plus(a).entails(b) and ctx.plus(b).entails(a):
        return
    if a.kind == b.kind == "bapp" and a.args[0] == b.args[0]:
        for x, y in zip(a.args[1], b.args[1]):
            prove_eq(x, y, ctx, depth + 1)
        return
    if a.kind == b.kind and a.kind in ("le0", "eq0") and not (is_int(a.args[0]) and is_int(b.args[0])):
        return prove_eq(a.args[0], b.args[0], ctx, depth + 1)
    if a.kind == b.kind and a.kind in ("and", "or", "not") and len(a.args) == len(b.args):
        return match_multiset(list(a.args), list(b.args), ctx, depth, "cond")
    raise Fail("conditions differ", ctx, a, b)


def n_eq(a, b, ctx, depth):
    d = a - b
    if not d.items:
        return
    if is_int(d) or all(x.sort == "I" for m, _ in d.items for x, _ in m):
        if ctx.entails(eq(d, 0)):
            return
    # unify atoms modulo provable equality of their arguments
    d2 = unify_atoms(d, ctx, depth)
    if not d2.items:
        return
    if d2 is not d:
        d2 = simp(d2, ctx)
        if not d2.items:
            return
    # spec functions
    for mono, _ in d2.items:
        for at, _e in mono:
            if at.kind == "app" and at.args[0] in UNFOLD:
                u = UNFOLD[at.args[0]](*at.args[1])
                if u is not None:
                    try:
                        d3 = subst_atom(d2, at, u)
                        return prove_eq(d3, P(0), ctx, depth + 20)
                    except Fail:
                        pass
    for lem in LEMMAS:
        d3 = lem(d2, ctx)
        if d3 is not None and d3 is not d2:
            return prove_eq(d3, P(0), ctx, depth + 5)
    if ctx.entails(eq(d2, 0)):
        return
    raise Fail("numeric terms differ", ctx, a, b)


def subst_atom(p, at, val):
    r = P(0)
    for mono, c in p.items:
        t = P(c)
        for x, e in mono:
            q = val if x is at else P(x)
            if e < 0:
                q = recip(q)
            for _ in range(abs(e)):
                t = t * q
        r = r + t
    return r


def unify_atoms(p, ctx, depth):
    """Replace atoms by provably equal representatives."""
    atoms = []
    for mono, _ in p.items:
        for a, _e in mono:
            if a not in atoms and a.kind != "var":
                atoms.append(a)
    rep = {}
    for i, a in enumerate(atoms):
        for b in atoms[:i]:
            if b in rep or a.kind != b.kind:
                continue
            if atom_eq(a, b, ctx, depth):
                rep[a] = b
                break
    if not rep:
        return p
    r = P(0)
    for mono, c in p.items:
        t = P(c)
        for x, e in mono:
            q = P(rep.get(x, x))
            if e < 0:
                q = recip(q)
            for _ in range(abs(e)):
                t = t * q
        r = r + t
    return r


def atom_eq(a, b, ctx, depth):
    if a is b:
        return True
    if a.kind != b.kind or a.sort != b.sort and a.kind != "bsum":
        return False
    k = a.kind
    try:
        if k == "app":
            if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
                return False
            for x, y in zip(a.args[1], b.args[1]):
                prove_eq(x, y, ctx, depth + 1)
            return True
        if k in T.BIND_ATOMS:
            return binder_eq(a, b, ctx, depth) or nested_eq(a, b, ctx, depth)
        if k == "mat":
            if len(a.args[0]) != len(b.args[0]):
                return False
            for x, y in zip(a.args[1], b.args[1]):
                prove_eq(x, y, ctx, depth + 1)
            vs = [fresh("m") for _ in a.args[0]]
            c2 = ctx.plus(*[conj(le(0, v), lt(v, h)) for v, h in zip(vs, a.args[1])])
            prove_eq(subst(a.args[2], dict(zip(a.args[0], vs))), subst(b.args[2], dict(zip(b.args[0], vs))), c2,
                     depth + 1)
            return True
        if k == "var":
            return ctx.entails(eq(P(a), P(b))) if a.sort == "I" else False
        if len(a.args) != len(b.args):
            return False
        for x, y in zip(a.args, b.args):
            if isinstance(x, (Poly, Cond, V, Atom)):
                if isinstance(x, Atom):
                    if not atom_eq(x, y, ctx, depth + 1):
                        return False
                else:
                    prove_eq(x, y, ctx, depth + 1)
            elif x != y:
                return False
        return True
    except Fail:
        return False


def binder_eq(a, b, ctx, depth):
    hi = a.args[2] - a.args[1]
    if not holds_eq(hi, b.args[2] - b.args[1], ctx, depth + 1):
        return False
    v = fresh("k")
    c2 = ctx.plus(le(0, v), lt(v, hi))
    ba = subst(a.args[3], {a.args[0]: v + a.args[1]})
    return holds_eq(ba, subst(b.args[3], {b.args[0]: v + b.args[1]}), c2, depth + 1) \
        or holds_eq(ba, subst(b.args[3], {b.args[0]: hi - 1 - v + b.args[1]}), c2, depth + 1)


def nnest(a):
    """Numeric sum (maximum) of sums: [(variable, extent)], body."""
    k = a.kind
    vs = []
    p = P(a)
    while True:
        inner = None
        if len(p.items) == 1:
            (m, c), = p.items
            inner = [(x, e) for x, e in m if x.kind == k and e == 1]
        if not inner or k != "bsum" and not (c == 1 and len(m) == 1):
            return vs, p
        x = inner[0][0]
        if builtins.any(v in fv(x.args[1]) or v in fv(x.args[2]) for v, _ in vs):
            return vs, p
        v = fresh("n")
        vs.append((v.as_atom(), x.args[2] - x.args[1]))
        p = mkpoly({tuple((y, e) for y, e in m if y is not x): c}) * subst(x.args[3], {x.args[0]: v + x.args[1]})


def nested_eq(a, b, ctx, depth):
    """Sums (maxima) over the same index box in another order."""
    va, pa = nnest(a)
    vb, pb = nnest(b)
    if len(va) != len(vb) or not 1 < len(va) <= 4:
        return False
    c2 = ctx.plus(*[conj(le(0, v), lt(v, n)) for v, n in va])
    for perm in itertools.permutations(range(len(va))):
        if list(perm) == list(range(len(va))):
            continue
        if builtins.all(holds_eq(va[q][1], vb[i][1], ctx, depth + 1) for i, q in enumerate(perm)):
            if holds_eq(pa, subst(pb, {vb[i][0]: P(va[q][0]) for i, q in enumerate(perm)}), c2, depth + 5):
                return True
    return False


# ------------------------------------------------------------------------ semiring values

def v_eq(a, b, ctx, depth):
    for lem in LEMMAS:
        for x, y in ((a, b), (b, a)):
            r = lem(x, ctx)
            if r is not None and r is not x:
                return prove_eq(r, y, ctx, depth + 1)
    if a.kind == b.kind:
        try:
            return v_eq_same(a, b, ctx, depth)
        except Fail as e:
            err = e
    else:
        err = Fail("semiring terms differ", ctx, a, b)
    # full sum-of-products normal form
    if depth < 40:
        na, nb = hoist(a), hoist(b)
        if (na is not a or nb is not b) and (na.kind == nb.kind):
            try:
                if na is nb:
                    return
                return v_eq_same(na, nb, ctx, depth + 20)
            except Fail as e:
                err = e
    m = solved(ctx, fv(a) | fv(b))
    if m:
        a2, b2 = subst(a, m), subst(b, m)
        if a2 is not a or b2 is not b:
            return prove_eq(a2, b2, ctx, depth + 1)
    for x, y in ((a, b), (b, a)):
        if x.kind == "app" and x.args[0] in UNFOLD and not (y.kind == "app" and y.args[0] == x.args[0]):
            u = UNFOLD[x.args[0]](*x.args[1])
            if u is not None:
                return prove_eq(u, y, ctx, depth + 10)
    raise err


def solved(ctx, atoms):
    """Index variables the context fixes: equations among its facts, and inequalities it forces to be tight."""
    m = ctx.eqs
    if m is None:
        m = {}
        for f in ctx.facts:
            if f.kind not in ("eq0", "le0") or not builtins.any("!" in str(v) for v in fv(f)):
                continue
            p = subst(f.args[0], m) if m else f.args[0]
            if p.const() is not None or f.kind == "le0" and not ctx.entails(eq(p, 0)):
                continue
            for v in sorted((v for v in fv(p) if v.kind == "var" and v.sort == "I"), key=lambda v: -v.id):
                s = T.solve_eq(eq(p, 0), v)
                if s is not None:
                    m = {k: subst(e, {v: s[0]}) for k, e in m.items()}
                    m[v] = s[0]
                    break
        ctx.eqs = m
    return {v: m[v] for v in atoms if v in m}


def v_eq_same(a, b, ctx, depth):
    k = a.kind
    if k in ("times", "plus"):
        return match_multiset(list(a.args), list(b.args), ctx, depth, k)
    if k == "sum":
        na, ba = nest(a)
        nb, bb = nest(b)
        if len(na) == len(nb) > 1:
            err = None
            for p in itertools.permutations(range(len(nb))):
                if not builtins.all(holds_eq(h, nb[q][1], ctx, depth + 1) for (_, h), q in zip(na, p)):
                    continue
                c2 = ctx.plus(*[c for v, h in na for c in (le(0, P(v)), lt(P(v), h))])
                try:
                    return prove_eq(ba, subst(bb, {nb[q][0]: P(v) for (v, _), q in zip(na, p)}), c2, depth + 1)
                except Fail as e:
                    err = err or e
            if err and depth > 30:
                raise err
        prove_eq(a.args[2] - a.args[1], b.args[2] - b.args[1], ctx, depth + 1)
        hi = a.args[2] - a.args[1]
        v = fresh("k")
        c2 = ctx.plus(le(0, v), lt(v, hi))
        ba = subst(a.args[3], {a.args[0]: v + a.args[1]})
        bb = subst(b.args[3], {b.args[0]: v + b.args[1]})
        try:
            return prove_eq(ba, bb, c2, depth + 1)
        except Fail as e:
            err = e
        # reversed orientation
        bb2 = subst(b.args[3], {b.args[0]: hi - 1 - v + b.args[1]})
        try:
            return prove_eq(ba, bb2, c2, depth + 1)
        except Fail:
            pass
        raise err
    if k == "app":
        if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
            raise Fail("different functions", ctx, a, b)
        for x, y in zip(a.args[1], b.args[1]):
            prove_eq(x, y, ctx, depth + 1)
        return
    if k in ("in", "raw", "det"):
        if len(a.args) != len(b.args):
            raise Fail("arity", ctx, a, b)
        for x, y in zip(a.args, b.args):
            prove_eq(x, y, ctx, depth + 1)
        return
    raise Fail("semiring terms differ", ctx, a, b)


def nest(s):
    """sum_i sum_j ... body with independent bounds -> [(variable, extent)], body; variables renamed and shifted to 0."""
    vs = []
    while isinstance(s, V) and s.kind == "sum" and not builtins.any(v in fv(s.args[1]) or v in fv(s.args[2]) for v, _ in vs):
        v = fresh("n")
        vs.append((v.as_atom(), s.args[2] - s.args[1]))
        s = subst(s.args[3], {s.args[0]: v + s.args[1]})
    return vs, s


_hoist = {}


def hoist(x):
    """Distribute products over sums and pluses (sum-of-products form)."""
    r = _hoist.get(x)
    if r is None:
        r = _hoist[x] = _hoist_(x)
    return r


def _hoist_(x):
    if x.kind == "times":
        fs = [hoist(a) for a in x.args]
        for i, f in enumerate(fs):
            if f.kind == "plus":
                rest = fs[:i] + fs[i + 1:]
                return vplus(*[hoist(vtimes(p, *rest)) for p in f.args])
            if f.kind == "sum":
                rest = fs[:i] + fs[i + 1:]
                v = fresh("h", f.args[0].sort)
                body = subst(f.args[3], {f.args[0]: v})
                return hoist(vsum(v.as_atom(), f.args[1], f.args[2], vtimes(body, *rest)))
        return vtimes(*fs)
    if x.kind == "plus":
        return vplus(*[hoist(a) for a in x.args])
    if x.kind == "sum":
        v = fresh("h", x.args[0].sort)
        body = hoist(subst(x.args[3], {x.args[0]: v}))
        if body.kind == "plus":
            return vplus(*[vsum(v.as_atom(), x.args[1], x.args[2], p) for p in body.args])
        return vsum(v.as_atom(), x.args[1], x.args[2], body)
    return x


def match_multiset(xs, ys, ctx, depth, kind):
    xs, ys = list(xs), list(ys)
    for x in list(xs):
        if x in ys:
            xs.remove(x)
            ys.remove(x)
    if not xs and not ys:
        return
    if len(xs) != len(ys):
        raise Fail("different number of %s terms" % kind, ctx, tuple(xs), tuple(ys))
    # backtracking matching
    def go(i, rest):
        if i == len(xs):
            return True
        for j, y in enumerate(rest):
            if _head(xs[i]) != _head(y) and not (_unfoldable(xs[i]) or _unfoldable(y)) and kind != "plus":
                continue
            if holds_eq(xs[i], y, ctx, depth + 1):
                if go(i + 1, rest[:j] + rest[j + 1:]):
                    return True
        return False
    if not go(0, ys):
        raise Fail("no matching of %s terms" % kind, ctx, tuple(xs), tuple(ys))


def _head(x):
    if isinstance(x, V) and x.kind == "app":
        return ("app", x.args[0])
    return x.kind


def _unfoldable(x):
    return isinstance(x, V) and x.kind == "app" and x.args[0] in UNFOLD
