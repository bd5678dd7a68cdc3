"""The stated algebras: what sum and times of every semiring compute."""
from vt.contract import *
from vt import sops

BIG = P(-100000)


def tens(E, name, dims):
    return E.tensor(name, dims)


def lse_(f, n):
    k = fresh("k")
    return nlog(bsum(k.as_atom(), 0, n, nexp(f(k))))


def max_(f, n):
    if P(n).const() is not None:
        return sops.mkmax([f(P(i)) for i in range(P(n).const())])
    k = fresh("k")
    return bmax(k.as_atom(), 0, n, f(k))


def sum_(f, n):
    k = fresh("k")
    return bsum(k.as_atom(), 0, n, f(k))


def kth(j, dims, f):
    """j-th largest of a family."""
    vs = [fresh("k") for _ in dims]
    return P(atom("ord", j, mat([v.as_atom() for v in vs], [P(d) for d in dims], f(*vs))))


def at(name):
    return lambda *i: app(name, *i)


# (class name, semiring size, sum over a family of component functions, product of two)
def scalar(fold, times):
    return lambda f, n: (lambda s: fold(lambda k: f(k)(s), n)), lambda a, b: (lambda s: times(a(s), b(s)))


def ent_sum(f, n):
    z = lse_(lambda k: f(k)(0), n)
    p = lambda k: nexp(f(k)(0) - z)
    return lambda s: z if s == 0 else sum_(lambda k: p(k) * (f(k)(1) - (f(k)(0) - z)), n)


def two_sum(kl):
    def sm(f, n):
        z, y = lse_(lambda k: f(k)(0), n), lse_(lambda k: f(k)(1), n)
        p = lambda k: nexp(f(k)(0) - z)
        return lambda s: [z, y, None][s] if s < 2 else sum_(
            lambda k: p(k) * (f(k)(2) - (f(k)(1) - y) + (f(k)(0) - z if kl else 0)), n)
    return sm


add = lambda a, b: a + b
ALG = {
    "LogSemiring": (1, lambda f, n: (lambda s: lse_(lambda k: f(k)(0), n)), add, [[BIG], [0]]),
    "MaxSemiring": (1, lambda f, n: (lambda s: max_(lambda k: f(k)(0), n)), add, [[BIG], [0]]),
    "StdSemiring": (1, lambda f, n: (lambda s: sum_(lambda k: f(k)(0), n)), lambda a, b: a * b, [[0], [1]]),
    "EntropySemiring": (2, ent_sum, add, [[BIG, 0], [0, 0]]),
    "CrossEntropySemiring": (3, two_sum(False), add, [[BIG, BIG, 0], [0, 0, 0]]),
    "KLDivergenceSemiring": (3, two_sum(True), add, [[BIG, BIG, 0], [0, 0, 0]]),
}
