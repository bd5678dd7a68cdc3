"""Derivative of a numeric term with respect to one leaf application name(idx): the rules autograd applies.
Maxima and order statistics are differentiated through the element they select."""
from .terms import *
from . import terms as T


class NoDeriv(Exception):
    pass


def deriv(x, name, idx):
    memo = {}

    def d(x):
        if x in memo:
            return memo[x]
        r = memo[x] = go(x)
        return r

    def hit(args):
        return conj(*[eq(a, b) for a, b in zip(args, idx)])

    def bind(f, a):
        v = fresh("d", a.args[0].sort)
        body = d(subst(a.args[3], {a.args[0]: v}))
        return f(v.as_atom(), a.args[1], a.args[2], body)

    def go(x):
        if not depends(x, name):
            return P(0)
        if isinstance(x, Poly):
            r = P(0)
            for mono, c in x.items:
                for i, (a, e) in enumerate(mono):
                    da = d(a)
                    if da.items:
                        rest = mono[:i] + mono[i + 1:] + (((a, e - 1),) if e != 1 else ())
                        r = r + mkpoly({tuple(sorted(rest, key=lambda q: q[0].id)): c}) * e * da
            return r
        k, a = x.kind, x.args
        if k == "app":
            if a[0] != name:
                raise NoDeriv("derivative through the indices of %s" % a[0])
            return nite(hit(a[1]), P(1), P(0))
        if k == "exp":
            return P(x) * d(a[0])
        if k == "log":
            return recip(a[0]) * d(a[0])
        if k == "sqrt":
            return recip(P(x)) * d(a[0]) / 2
        if k == "bsum":
            return bind(bsum, x)
        if k == "ite":
            if depends(a[0], name):
                raise NoDeriv("derivative through a condition")
            return guard(a[0], d(a[1])) + guard(neg(a[0]), d(a[2]))
        if k == "bmax":
            v = fresh("d", a[0].sort)
            n = a[2] - a[1]
            body = subst(a[3], {a[0]: v + a[1]})
            best = P(atom("argmax", T.mat([v.as_atom()], [n], body), sort="I"))
            return subst(d(body), {v.as_atom(): best})
        if k == "ord" and len(a[1].args[0]) == 1:
            v, body = a[1].args[0][0], a[1].args[2]
            best = P(atom("ordix", a[0], a[1], sort="I"))
            w = fresh("d")
            return subst(d(subst(body, {v: w})), {w.as_atom(): best})
        if k == "logdet" and len(a[0].args[0]) == 2:
            m = a[0]
            i, j = fresh("d"), fresh("d")
            e = d(subst(m.args[2], {m.args[0][0]: i, m.args[0][1]: j}))
            return bsum(i.as_atom(), 0, m.args[1][0], bsum(j.as_atom(), 0, m.args[1][1], P(atom("inv", m, j, i)) * e))
        raise NoDeriv("derivative of %s" % k)
    return d(x)


def guard(c, p):
    """p where c holds, 0 elsewhere, with the condition joined to an indicator factor of each summand."""
    r = P(0)
    for mono, q in p.items:
        for i, (a, e) in enumerate(mono):
            if a.kind == "ite" and e == 1 and a.args[2].const() == 0:
                r = r + mkpoly({mono[:i] + mono[i + 1:]: q}) * nite(conj(c, a.args[0]), a.args[1], P(0))
                break
        else:
            r = r + mkpoly({mono: q}) * nite(c, P(1), P(0))
    return r


_dep = {}


def depends(x, name):
    key = (x, name)
    if key not in _dep:
        if isinstance(x, Atom) and x.kind == "app" and x.args[0] == name:
            _dep[key] = True
        else:
            _dep[key] = any(depends(c, name) for c in T.subterms(x))
    return _dep[key]
