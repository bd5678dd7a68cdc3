"""Hash-consed term language of the verifier.

Three syntactic classes:
  Poly  numeric (integer or real) polynomials over atoms, canonical by construction
  Cond  boolean conditions
  V     values of an abstract commutative semiring

Equality of canonical objects is object identity.
"""
from fractions import Fraction
import itertools

_fresh = itertools.count(1)


class Intern:
    table = {}
    ids = itertools.count(1)


def _intern(cls, key, init):
    k = (cls, key)
    o = Intern.table.get(k)
    if o is None:
        o = object.__new__(cls)
        o.id = next(Intern.ids)
        o.key = key
        o._fv = None
        o._depth = None
        init(o)
        Intern.table[k] = o
    return o


# ---------------------------------------------------------------- generic traversal helpers

def subterms(x):
    """Immediate children of a Poly/Cond/V/Atom/tuple."""
    if isinstance(x, Poly):
        return [a for mono, _ in x.items for a, _ in mono]
    if isinstance(x, (Atom, Cond, V)):
        return [c for c in x.args if isinstance(c, (Poly, Cond, V, Atom, tuple))]
    if isinstance(x, tuple):
        return [c for c in x if isinstance(c, (Poly, Cond, V, Atom, tuple))]
    return []


def fv(x):
    """Free variable atoms."""
    if isinstance(x, tuple):
        r = frozenset()
        for c in x:
            r |= fv(c)
        return r
    if not isinstance(x, (Poly, Atom, Cond, V)):
        return frozenset()
    if x._fv is not None:
        return x._fv
    if isinstance(x, Atom) and x.kind == "var":
        r = frozenset([x])
    else:
        r = frozenset()
        for c in subterms(x):
            r |= fv(c)
        b = binders(x)
        if b:
            r = r - frozenset(b)
            # the bounds are outside the scope of the binder
            for lo, hi in binder_bounds(x):
                r |= fv(lo) | fv(hi)
    x._fv = r
    return r


def depth(x):
    """1 + maximal nesting of binders, used to name bound variables canonically."""
    if isinstance(x, tuple):
        return max([depth(c) for c in x], default=0)
    if not isinstance(x, (Poly, Atom, Cond, V)):
        return 0
    if x._depth is not None:
        return x._depth
    d = max([depth(c) for c in subterms(x)], default=0)
    if binders(x):
        d += len(binders(x))
    x._depth = d
    return d


BIND_ATOMS = {"bsum", "bmax", "bprod", "lse", "bmin"}
LAM_ATOMS = {"mat", "fam"}


def binders(x):
    if isinstance(x, Atom):
        if x.kind in BIND_ATOMS:
            return (x.args[0],)
        if x.kind in LAM_ATOMS:
            return x.args[0]
    elif isinstance(x, V):
        if x.kind == "sum":
            return (x.args[0],)
    elif isinstance(x, Cond):
        if x.kind in ("all", "any"):
            return (x.args[0],)
    return ()


def binder_bounds(x):
    if isinstance(x, Atom) and x.kind in BIND_ATOMS:
        return [(x.args[1], x.args[2])]
    if isinstance(x, Atom) and x.kind in LAM_ATOMS:
        return [(P(0), h) for h in x.args[1]]
    if isinstance(x, V) and x.kind == "sum":
        return [(x.args[1], x.args[2])]
    if isinstance(x, Cond) and x.kind in ("all", "any"):
        return [(x.args[1], x.args[2])]
    return []


# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ("id", "key", "kind", "args", "_fv", "_depth", "sort")

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "var":
            return a[0]
        if k == "app":
            return "%s(%s)" % (a[0], ", ".join(map(repr, a[1])))
        if k in BIND_ATOMS:
            return "%s[%r=%r..%r](%r)" % (k, a[0], a[1], a[2], a[3])
        return "%s(%s)" % (k, ", ".join(map(repr, a)))


def atom(kind, *args, sort="R"):
    def init(o):
        o.kind, o.args, o.sort = kind, args, sort
    return _intern(Atom, (kind, args, sort), init)


def var(name, sort="I"):
    return atom("var", name, sort=sort)


def fresh(name="x", sort="I"):
    return P(var("%s!%d" % (name, next(_fresh)), sort))


# ---------------------------------------------------------------- polynomials

class Poly:
    __slots__ = ("id", "key", "items", "_fv", "_depth", "d")

    def __repr__(self):
        if not self.items:
            return "0"
        out = []
        for mono, c in self.items:
            m = "*".join(repr(a) if p == 1 else "%r^%d" % (a, p) for a, p in mono)
            if not mono:
                out.append(str(c))
            elif c == 1:
                out.append(m)
            elif c == -1:
                out.append("-" + m)
            else:
                out.append("%s*%s" % (c, m))
        return " + ".join(out).replace("+ -", "- ")

    # -- structure
    def is_const(self):
        return not self.items or (len(self.items) == 1 and not self.items[0][0])

    def const(self):
        """The value if constant (int/Fraction) else None."""
        if not self.items:
            return 0
        if len(self.items) == 1 and not self.items[0][0]:
            c = self.items[0][1]
            return int(c) if c == int(c) else c
        return None

    def const_part(self):
        for mono, c in self.items:
            if not mono:
                return c
        return 0

    def as_atom(self):
        """The atom if the polynomial is a single atom with coefficient one."""
        if len(self.items) == 1:
            mono, c = self.items[0]
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return mono[0][0]
        return None

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        d = dict(self.items)
        for m, c in o.items:
            d[m] = d.get(m, 0) + c
        return mkpoly(d)

    __radd__ = __add__

    def __neg__(self):
        return mkpoly({m: -c for m, c in self.items})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m1, c1 in self.items:
            for m2, c2 in o.items:
                m, extra = mul_mono(m1, m2)
                if m is None:
                    # non-monomial product (e.g. delta functions): fall back to Poly product
                    q = extra * P(c1 * c2)
                    for mm, cc in q.items:
                        d[mm] = d.get(mm, 0) + cc
                else:
                    d[m] = d.get(m, 0) + c1 * c2 * extra
        return mkpoly(d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * recip(P(o))


def mkpoly(d):
    items = tuple(sorted(((m, _q(c)) for m, c in d.items() if c != 0),
                         key=lambda t: (len(t[0]), tuple((a.id, p) for a, p in t[0]))))

    def init(o):
        o.items = items
        o.d = None
    return _intern(Poly, tuple((tuple((a.id, p) for a, p in m), c) for m, c in items), init)


def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    if isinstance(c, float):
        f = Fraction(repr(c)) if c == c and abs(c) != float("inf") else None
        assert f is not None
        return _q(f)
    return c


def mul_mono(m1, m2):
    """Product of monomials -> (mono, coefficient)."""
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = {}
    for a, p in m1 + m2:
        d[a] = d.get(a, 0) + p
    # pow2(a)*pow2(b) = pow2(a+b)
    p2 = [a for a in d if a.kind == "pow2"]
    if len(p2) > 1 or (p2 and d[p2[0]] != 1):
        e = P(0)
        for a in p2:
            e = e + a.args[0] * d.pop(a)
        rest = mkpoly({tuple(sorted(((a, p) for a, p in d.items() if p),
                                    key=lambda t: t[0].id)): 1})
        q = pow2(e)
        if len(q.items) == 1:
            (mm, cc), = q.items
            (rm, rc), = rest.items
            d2 = {}
            for a, p in mm + rm:
                d2[a] = d2.get(a, 0) + p
            return tuple(sorted(((a, p) for a, p in d2.items() if p), key=lambda t: t[0].id)), cc * rc
        return None, rest * q
    m = tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda t: t[0].id))
    return m, 1


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return mkpoly({(): x})
    if isinstance(x, float):
        if x == float("-inf"):
            return NINF
        if x == float("inf"):
            return -NINF
        return mkpoly({(): x})
    if isinstance(x, Atom):
        return mkpoly({((x, 1),): 1})
    raise TypeError("not numeric: %r" % (x,))


def recip(p):
    c = p.const()
    if c is not None:
        return P(Fraction(1) / c)
    if len(p.items) == 1:
        mono, c = p.items[0]
        if not any(a.kind == "pow2" for a, _ in mono):
            return mkpoly({tuple((a, -e) for a, e in mono): Fraction(1) / c})
    # normalise the sign/scale by the leading coefficient
    lead = p.items[-1][1]
    q = mkpoly({m: Fraction(c) / lead for m, c in p.items})
    return P(atom("recip", q)) * P(Fraction(1) / lead)


def pow2(e):
    e = P(e)
    c = e.const()
    if c is not None:
        return P(Fraction(2) ** c)
    k = e.const_part()
    base = e - k
    return P(Fraction(2) ** k) * P_raw(atom("pow2", base, sort="I"))


def P_raw(a):
    return mkpoly({((a, 1),): 1})


NINF_ATOM = atom("ninf", sort="R")
NINF = P(NINF_ATOM)


def app(name, *args, sort="R"):
    return P(atom("app", name, tuple(args), sort=sort))


def is_int(p):
    if isinstance(p, Poly):
        return all((isinstance(c, int) or any(a.kind == "pow2" for a, _ in mono))
                   and all(a.sort == "I" and e > 0 for a, e in mono)
                   for mono, c in p.items)
    return False


# ---------------------------------------------------------------- conditions

class Cond:
    __slots__ = ("id", "key", "kind", "args", "_fv", "_depth")

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "true" or k == "false":
            return k
        if k == "le0":
            return "(%r <= 0)" % a
        if k == "eq0":
            return "(%r == 0)" % a
        if k == "not":
            return "!%r" % a
        if k in ("and", "or"):
            return "(" + (" & " if k == "and" else " | ").join(map(repr, a)) + ")"
        if k in ("all", "any"):
            return "%s[%r=%r..%r](%r)" % (k, a[0], a[1], a[2], a[3])
        return "%s(%s)" % (k, ", ".join(map(repr, a)))


def _cond(kind, *args):
    def init(o):
        o.kind, o.args = kind, args
    return _intern(Cond, (kind, args), init)


TRUE = _cond("true")
FALSE = _cond("false")


_hasinf = {}


def has_inf(x):
    r = _hasinf.get(x)
    if r is None:
        r = _hasinf[x] = x is NINF_ATOM or any(has_inf(c) for c in subterms(x) if not isinstance(c, tuple))
    return r


def _by_cases(f, a, b):
    """a or b is a case distinction some branch of which is infinite: compare branch by branch."""
    for i, p in enumerate((a, b)):
        t = p.as_atom()
        if t is not None and t.kind == "ite" and has_inf(t):
            c, x, y = t.args
            g = (lambda z: f(z, b)) if i == 0 else (lambda z: f(a, z))
            return disj(conj(c, g(x)), conj(neg(c), g(y)))
    return None


def le(a, b):
    a, b = P(a), P(b)
    if has_inf(a) or has_inf(b):
        r = _by_cases(le, a, b)
        if r is not None:
            return r
    p = a - b
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if is_int(p):
        p = _int_norm(p)
    s = infsign(p)
    if s is not None:
        return TRUE if s < 0 else FALSE
    return _cond("le0", p)


def infsign(p):
    for mono, c in p.items:
        if mono == ((NINF_ATOM, 1),):
            return -1 if c > 0 else 1
    return None


def _int_norm(p):
    """p <= 0 over the integers: divide by the gcd of the coefficients."""
    from math import gcd
    cs = [c for m, c in p.items if m]
    if any(not isinstance(c, int) for c in cs) or not isinstance(p.const_part(), int):
        return p
    g = 0
    for c in cs:
        g = gcd(g, c)
    if g > 1:
        k = p.const_part()
        return mkpoly({**{m: c // g for m, c in p.items if m}, (): -((-k) // g)})
    return p


def lt(a, b):
    p = P(a) - P(b)
    if is_int(p):
        return le(p + 1, 0)
    return neg(le(P(b), P(a)))


def eq(a, b):
    a, b = P(a), P(b)
    if has_inf(a) or has_inf(b):
        r = _by_cases(eq, a, b)
        if r is not None:
            return r
    p = a - b
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if infsign(p) is not None and p is not NINF:
        return FALSE
    if p.items[-1][1] < 0:
        p = -p
    return _cond("eq0", p)


def ne(a, b):
    return neg(eq(a, b))


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == "not":
        return c.args[0]
    if c.kind == "le0" and is_int(c.args[0]):
        return le(1 - c.args[0], 0)
    if c.kind == "and":
        return disj(*[neg(x) for x in c.args])
    if c.kind == "or":
        return conj(*[neg(x) for x in c.args])
    if c.kind == "all":
        return _cond("any", c.args[0], c.args[1], c.args[2], neg(c.args[3]))
    if c.kind == "any":
        return _cond("all", c.args[0], c.args[1], c.args[2], neg(c.args[3]))
    return _cond("not", c)


def conj(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        out += list(c.args) if c.kind == "and" else [c]
    out = sorted(set(out), key=lambda c: c.id)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _cond("and", *out)


def disj(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        out += list(c.args) if c.kind == "or" else [c]
    out = sorted(set(out), key=lambda c: c.id)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _cond("or", *out)


def bapp(name, *args):
    return _cond("bapp", name, tuple(args))


def canon_binder(v, body):
    """Rename the bound variable v of body canonically by nesting depth."""
    d = depth(body)
    nv = var("_k%d" % d, v.sort)
    if nv is v:
        return v, body
    return nv, subst(body, {v: P(nv)})


def ball(v, lo, hi, body):
    if body is TRUE or body is FALSE and False:
        return TRUE
    v2, b2 = canon_binder(v, body)
    return _cond("all", v2, lo, hi, b2)


def bany(v, lo, hi, body):
    if body is FALSE:
        return FALSE
    v2, b2 = canon_binder(v, body)
    return _cond("any", v2, lo, hi, b2)


# ---------------------------------------------------------------- numeric constructors

def nite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    srt = "I" if is_int(a) and is_int(b) else "R"
    return P(atom("ite", c, a, b, sort=srt))


def b2n(c):
    """Numeric value of a boolean."""
    return nite(c, P(1), P(0))


def n2b(p):
    """Truth value of a number."""
    p = P(p)
    a = p.as_atom()
    if a is not None and a.kind == "ite":
        c, x, y = a.args
        if x.const() is not None and y.const() is not None:
            if x.const() != 0 and y.const() == 0:
                return c
            if x.const() == 0 and y.const() != 0:
                return neg(c)
    return ne(p, 0)


def nexp(p):
    p = P(p)
    c = p.const()
    if c == 0:
        return P(1)
    if infsign(p) is not None:
        if infsign(p) < 0:
            return P(0)
        raise ValueError("exp(+inf)")
    a = p.as_atom()
    if a is not None:
        if a.kind == "log":
            return a.args[0]
        if a.kind == "ite":
            return nite(a.args[0], nexp(a.args[1]), nexp(a.args[2]))
        if a.kind == "lse":
            return bsum(a.args[0], a.args[1], a.args[2], nexp(a.args[3]))
    if len(p.items) > 1:
        r = P(1)
        for m, c in p.items:
            r = r * nexp(mkpoly({m: c}))
        return r
    (m, c), = p.items
    if m and c != 1 and isinstance(c, int):
        base = nexp(mkpoly({m: 1}))
        out = P(1)
        if c < 0:
            base = recip(base)
        for _ in range(abs(c)):
            out = out * base
        return out
    return P(atom("exp", p))


def positive(p):
    """Syntactic strict positivity."""
    return all(c > 0 and all(a.kind in ("exp", "pow2") or (a.kind in ("bsum", "bprod") and positive(a.args[3]))
                             or e % 2 == 0 and False for a, e in m) for m, c in p.items) and bool(p.items)


def nlog(p):
    p = P(p)
    if p.const() == 1:
        return P(0)
    if p.const() == 0:
        return NINF
    if len(p.items) == 1:
        (m, c), = p.items
        if c == 1 and m and all(a.kind == "exp" or positive(P(a)) for a, _ in m):
            r = P(0)
            for a, e in m:
                r = r + (a.args[0] if a.kind == "exp" else P(atom("log", P(a)))) * e
            return r
    a = p.as_atom()
    if a is not None and a.kind == "ite":
        return nite(a.args[0], nlog(a.args[1]), nlog(a.args[2]))
    return P(atom("log", p))


def bsum(v, lo, hi, body):
    """Real sum over v in [lo, hi) -- linear normal form."""
    lo, hi, body = P(lo), P(hi), P(body)
    n = (hi - lo).const()
    if n is not None and n <= 6:
        r = P(0)
        for j in range(int(n)):
            r = r + subst(body, {v: lo + j})
        return r
    if not lo.is_const() or lo.const() != 0:
        body = subst(body, {v: P(v) + lo})
        hi, lo = hi - lo, P(0)
    out = P(0)
    for m, c in body.items:
        inside = tuple((a, e) for a, e in m if v in fv(a))
        outside = tuple((a, e) for a, e in m if v not in fv(a))
        if not inside:
            out = out + mkpoly({outside: c}) * hi
            continue
        b = mkpoly({inside: 1})
        # sum of an indicator of a single index
        done = None
        for a, e in inside:
            if a.kind == "ite" and e == 1:
                rest = mkpoly({tuple(q for q in inside if q[0] is not a): 1})
                done = _delta_sum(v, hi, a, rest)
                if done is not None:
                    break
        if done is not None:
            out = out + mkpoly({outside: c}) * done
            continue
        # conditions of an indicator that do not depend on the index stand outside
        for a, e in inside:
            if a.kind == "ite" and e == 1 and a.args[2].const() == 0 and a.args[0].kind == "and":
                free = [k for k in a.args[0].args if v not in fv(k)]
                if free:
                    held = conj(*[k for k in a.args[0].args if v in fv(k)])
                    rest = mkpoly({tuple(q for q in inside if q[0] is not a): 1})
                    done = nite(conj(*free), bsum(v, lo, hi, nite(held, a.args[1], P(0)) * rest), P(0))
                    break
        if done is not None:
            out = out + mkpoly({outside: c}) * done
            continue
        v2, b2 = canon_binder(v, b)
        out = out + mkpoly({outside: c}) * P(atom("bsum", v2, lo, hi, b2, sort="I" if is_int(b2) else "R"))
    return out


def _delta_sum(v, hi, a, times=None):
    """sum_{v<hi} ite(v==e, x, 0)  ->  ite(0<=e<hi, x[v:=e], 0)."""
    c, x, y = a.args
    if y.const() != 0:
        if x.const() == 0:
            c, x, y = neg(c), y, x
        else:
            return None
    while True:
        i = x.as_atom()
        if i is None or i.kind != "ite" or i.args[2].const() != 0:
            break
        c, x = conj(c, i.args[0]), i.args[1]
    sol = solve_eq(c, v)
    if sol is None:
        return None
    e, rest = sol
    rest = subst(rest, {v: e})
    if times is not None:
        x = x * times
    return nite(conj(le(0, e), lt(e, hi), rest), subst(x, {v: e}), P(0))


def solve_eq(c, v):
    """If c is (v == e [& rest]) return (e, rest)."""
    cs = list(c.args) if c.kind == "and" else [c]
    for i, k in enumerate(cs):
        if k.kind == "eq0":
            p = k.args[0]
            co = None
            for m, q in p.items:
                if m == ((v, 1),):
                    co = q
            if co in (1, -1):
                e = P(v) - p * co
                if v not in fv(e):
                    return e, conj(*(cs[:i] + cs[i + 1:]))
    return None


def bmax(v, lo, hi, body):
    lo, hi, body = P(lo), P(hi), P(body)
    n = (hi - lo).const()
    if n == 1:
        return subst(body, {v: lo})
    # summands that do not depend on the index stand outside (the range is not empty: checked where maxima are taken)
    out = mkpoly({m: c for m, c in body.items if not any(v in fv(a) for a, _ in m)})
    inner = body - out
    if out.items and inner.items:
        return out + bmax(v, lo, hi, inner)
    v2, b2 = canon_binder(v, body)
    return P(atom("bmax", v2, P(lo), P(hi), b2))


def truth_of(p):
    """Condition c with p = (1 if c else 0), None if p is not of that form."""
    if p.const() is not None:
        return TRUE if p.const() == 1 else FALSE if p.const() == 0 else None
    a = p.as_atom()
    if a is None or a.kind != "ite":
        return None
    x, y = truth_of(a.args[1]), truth_of(a.args[2])
    if x is None or y is None:
        return None
    c = a.args[0]
    if x is TRUE or y is FALSE:
        return disj(c, y) if x is TRUE else conj(c, x)
    if y is TRUE or x is FALSE:
        return disj(neg(c), x) if y is TRUE else conj(neg(c), y)
    return disj(conj(c, x), conj(neg(c), y))


def bprod(v, lo, hi, body):
    if P(body).const() == 1:
        return P(1)
    c = truth_of(P(body))
    if c is not None:
        return b2n(ball(v, P(lo), P(hi), c))
    v2, b2 = canon_binder(v, P(body))
    return P(atom("bprod", v2, P(lo), P(hi), b2))


def lse(v, lo, hi, body):
    return nlog(bsum(v, lo, hi, nexp(body)))


def mat(vs, dims, body):
    """Lambda tensor as an atom (for inverse, logdet, topk families...)."""
    m = {}
    nvs = []
    base = depth(body)
    for i, v in enumerate(vs):
        nv = var("_l%d_%d" % (base, i))
        m[v] = P(nv)
        nvs.append(nv)
    return atom("mat", tuple(nvs), tuple(dims), subst(body, m))


# ---------------------------------------------------------------- semiring values

class V:
    __slots__ = ("id", "key", "kind", "args", "_fv", "_depth")

    def __repr__(self):
        k, a = self.kind, self.args
        if k in ("zero", "one"):
            return k.upper()
        if k == "in":
            return "<%s>" % (", ".join(map(repr, a)))
        if k == "app":
            return "%s(%s)" % (a[0], ", ".join(map(repr, a[1])))
        if k == "sum":
            return "SUM[%r=%r..%r](%r)" % (a[0], a[1], a[2], a[3])
        if k == "times":
            return "(" + " (x) ".join(map(repr, a)) + ")"
        if k == "plus":
            return "(" + " (+) ".join(map(repr, a)) + ")"
        if k == "ite":
            return "if(%r, %r, %r)" % a
        return "%s(%s)" % (k, ", ".join(map(repr, a)))


def _v(kind, *args):
    def init(o):
        o.kind, o.args = kind, args
    return _intern(V, (kind, args), init)


ZERO = _v("zero")
ONE = _v("one")


def vin(*ps):
    return _v("in", *ps)


# base cases of recursive specification functions, decided syntactically: name -> f(*args) -> V or None
APPNORM = {}


def vapp(name, *args):
    args = tuple(P(a) if not isinstance(a, (V, Cond, tuple)) else a for a in args)
    f = APPNORM.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return _v("app", name, args)


def vraw(p):
    return _v("raw", P(p))


def vdet(v):
    """Value cut off from the autograd graph."""
    if v.kind in ("zero", "one", "det"):
        return v
    if v.kind == "ite":
        return vite(v.args[0], vdet(v.args[1]), vdet(v.args[2]))
    if v.kind == "raw" and v.args[0].is_const():
        return v
    if v.kind == "plus":
        return vplus(*[vdet(a) for a in v.args])
    if v.kind == "times":
        return vtimes(*[vdet(a) for a in v.args])
    return _v("det", v)


def vite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    return _v("ite", c, a, b)


def vtimes(*vs):
    out = []
    for x in vs:
        if x is ZERO:
            return ZERO
        if x is ONE:
            continue
        out += list(x.args) if x.kind == "times" else [x]
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return _v("times", *sorted(out, key=lambda t: t.id))


def vplus(*vs):
    out = []
    for x in vs:
        if x is ZERO:
            continue
        out += list(x.args) if x.kind == "plus" else [x]
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return _v("plus", *sorted(out, key=lambda t: t.id))


def vsum(v, lo, hi, body):
    lo, hi = P(lo), P(hi)
    n = (hi - lo).const()
    if n is not None and n <= 0:
        return ZERO
    if body is ZERO:
        return ZERO
    if n is not None and n <= 12:
        return vplus(*[subst(body, {v: lo + i}) for i in range(n)])
    if lo.const() != 0:
        body = subst(body, {v: P(v) + lo})
        hi, lo = hi - lo, P(0)
    if body.kind == "ite":
        c, x, y = body.args
        if v not in fv(c):
            return vite(c, vsum(v, lo, hi, x), vsum(v, lo, hi, y))
        if x is ZERO:
            c, x, y = neg(c), y, x
        if y is ZERO:
            s = solve_eq(c, v)
            if s is not None:
                e, rest = s
                rest = subst(rest, {v: e})
                return vite(conj(le(0, e), lt(e, hi), rest), subst(x, {v: e}), ZERO)
    if body.kind == "times":
        for f in body.args:
            if f.kind == "ite" and f.args[2] is ZERO:
                s = solve_eq(f.args[0], v)
                if s is not None:
                    e, rest = s
                    full = vtimes(*[f.args[1] if g is f else g for g in body.args])
                    return vite(conj(le(0, e), lt(e, hi), subst(rest, {v: e})), subst(full, {v: e}), ZERO)
    v2, b2 = canon_binder(v, body)
    return _v("sum", v2, lo, hi, b2)


# ---------------------------------------------------------------- substitution

def subst(x, m, memo=None):
    """Capture-free (bound names are canonical and fresh by depth) substitution of var atoms by Poly."""
    if not m:
        return x
    if memo is None:
        memo = {}
    return _subst(x, m, frozenset(m), memo)


def _subst(x, m, dom, memo):
    if isinstance(x, tuple):
        return tuple(_subst(c, m, dom, memo) for c in x)
    if not isinstance(x, (Poly, Atom, Cond, V)):
        return x
    if not (fv(x) & dom):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = P(0)
        for mono, c in x.items:
            t = P(c)
            for a, e in mono:
                if a.kind == "var":
                    q = m.get(a)
                    if q is None:
                        q = P(a)
                else:
                    q = _subst(a, m, dom, memo)
                if e < 0:
                    q = recip(P(q))
                for _ in range(abs(e)):
                    t = t * q
            r = r + t
    elif isinstance(x, Atom):
        r = _rebuild_atom(x, m, dom, memo)
    elif isinstance(x, Cond):
        r = _rebuild_cond(x, m, dom, memo)
    else:
        r = _rebuild_v(x, m, dom, memo)
    memo[x] = r
    return r


def _under(vs, body, m, dom, memo):
    """Substitute under binders, renaming them apart."""
    ren = {v: fresh("b", v.sort) for v in vs}
    m2 = {k: p for k, p in m.items() if k not in ren}
    m2.update(ren)
    b = subst(body, m2)
    return [ren[v].as_atom() for v in vs], b


def _rebuild_atom(x, m, dom, memo):
    k, a = x.kind, x.args
    if k == "var":
        return m.get(x, P(x))
    if k in BIND_ATOMS:
        (v,), b = _under([a[0]], a[3], m, dom, memo)
        lo, hi = _subst(a[1], m, dom, memo), _subst(a[2], m, dom, memo)
        return {"bsum": bsum, "bmax": bmax, "bprod": bprod, "lse": lse}[k](v, lo, hi, b)
    if k == "mat":
        vs, b = _under(list(a[0]), a[2], m, dom, memo)
        return mat(vs, _subst(a[1], m, dom, memo), b)
    args = _subst(a, m, dom, memo)
    return rebuild(x, args)


def rebuild(x, args):
    k = x.kind
    if k == "ite":
        return nite(*args)
    if k == "exp":
        return nexp(args[0])
    if k == "log":
        return nlog(args[0])
    if k == "pow2":
        return pow2(args[0])
    if k == "recip":
        return recip(args[0])
    if k == "comp":
        return comp(*args)
    if k == "div":
        return idiv(*args)
    if k == "mod":
        return imod(*args)
    if k == "mat":
        raise AssertionError
    return P(atom(k, *args, sort=x.sort))


def _rebuild_cond(x, m, dom, memo):
    k, a = x.kind, x.args
    if k in ("all", "any"):
        (v,), b = _under([a[0]], a[3], m, dom, memo)
        lo, hi = _subst(a[1], m, dom, memo), _subst(a[2], m, dom, memo)
        return (ball if k == "all" else bany)(v, lo, hi, b)
    args = _subst(a, m, dom, memo)
    return rebuild_cond(k, args)


def rebuild_cond(k, args):
    if k == "le0":
        return le(args[0], 0)
    if k == "eq0":
        return eq(args[0], 0)
    if k == "not":
        return neg(args[0])
    if k == "and":
        return conj(*args)
    if k == "or":
        return disj(*args)
    return _cond(k, *args)


def _rebuild_v(x, m, dom, memo):
    k, a = x.kind, x.args
    if k == "sum":
        (v,), b = _under([a[0]], a[3], m, dom, memo)
        lo, hi = _subst(a[1], m, dom, memo), _subst(a[2], m, dom, memo)
        return vsum(v, lo, hi, b)
    args = _subst(a, m, dom, memo)
    return rebuild_v(k, args)


def rebuild_v(k, args):
    if k == "times":
        return vtimes(*args)
    if k == "plus":
        return vplus(*args)
    if k == "ite":
        return vite(*args)
    if k == "det":
        return vdet(args[0])
    if k == "app":
        return vapp(args[0], *args[1])
    return _v(k, *args)


def expand(x, defs, memo=None):
    """Replace every application of a defined function by its definition."""
    memo = {} if memo is None else memo
    if isinstance(x, tuple):
        return tuple(expand(c, defs, memo) for c in x)
    if not isinstance(x, (Poly, Atom, Cond, V)):
        return x
    if x in memo:
        return memo[x]
    if isinstance(x, Poly):
        r = P(0)
        for mono, c in x.items:
            t = P(c)
            for a, e in mono:
                q = expand(a, defs, memo)
                q = P(q) if isinstance(q, Atom) else q
                q = recip(q) if e < 0 else q
                for _ in range(abs(e)):
                    t = t * q
            r = r + t
    elif isinstance(x, Atom) and x.kind == "app" and x.args[0] in defs:
        r = expand(P(defs[x.args[0]](*expand(x.args[1], defs, memo))), defs, memo)
    elif isinstance(x, Atom):
        if x.kind == "var":
            r = x
        elif x.kind in BIND_ATOMS:
            v = fresh("x", x.args[0].sort)
            f = {"bsum": bsum, "bmax": bmax, "bprod": bprod, "lse": lse}[x.kind]
            r = f(v.as_atom(), expand(x.args[1], defs, memo), expand(x.args[2], defs, memo), expand(subst(x.args[3], {x.args[0]: v}), defs, memo))
        elif x.kind == "mat":
            vs = [fresh("x") for _ in x.args[0]]
            r = mat([v.as_atom() for v in vs], expand(x.args[1], defs, memo), expand(subst(x.args[2], dict(zip(x.args[0], vs))), defs, memo))
        else:
            r = rebuild(x, tuple(expand(c, defs, memo) for c in x.args))
    elif isinstance(x, Cond):
        if x.kind in ("all", "any"):
            v = fresh("x", x.args[0].sort)
            f = ball if x.kind == "all" else bany
            r = f(v.as_atom(), expand(x.args[1], defs, memo), expand(x.args[2], defs, memo), expand(subst(x.args[3], {x.args[0]: v}), defs, memo))
        else:
            r = rebuild_cond(x.kind, tuple(expand(c, defs, memo) for c in x.args))
    else:
        raise ValueError("expand in a semiring term")
    memo[x] = r
    return r


def comp(s, v):
    """s-th component of a semiring value."""
    if isinstance(v, Poly):
        return v
    if v.kind == "raw":
        return v.args[0]
    return P(atom("comp", P(s), v))


def idiv(a, b):
    a, b = P(a), P(b)
    if b.const() == 1:
        return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P(int(ca) // int(cb))
    return P(atom("div", a, b, sort="I"))


def imod(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if cb == 1:
        return P(0)
    if ca is not None and cb is not None:
        return P(ca % cb)
    return P(atom("mod", a, b, sort="I" if is_int(a) else "R"))
