"""Non-projective dependency trees: the Laplacian of the matrix-tree theorem, its log-determinant and the derivative of that."""
from vt.contract import *
from vt import deriv

EPS = P(1) * T.Fraction(1, 100000)
NOTE = ["torch.logdet and torch.inverse compute the logarithm of the determinant and the inverse of their argument",
        "derivative of log det L with respect to an entry is the transposed inverse (Jacobi)"]


def setup(E, lens):
    B, N = E.size("B"), E.size("N")
    phi = E.tensor("phi", [B, N, N])
    L = E.lengths("len", B, P(1), N) if lens else None
    ln = (lambda b: app("len", b, sort="I")) if lens else (lambda b: N)
    inside = lambda b, h, m: conj(lt(h, ln(b)), lt(m, ln(b)))
    w = lambda b, h, m: nite(inside(b, h, m), nexp(app("phi", b, h, m)), P(0))
    return B, N, phi, L, ln, w


def laplacian(N, ln, w, multi):
    def lap(b, i, j):
        h = fresh("h")
        col = bsum(h.as_atom(), 0, N, nite(eq(h, j), P(0), w(b, h, j) + EPS))
        r = nite(eq(i, j), col + nite(le(ln(b), j), P(1), P(0)), -(w(b, i, j) + EPS))
        if multi:
            return r + nite(eq(i, j), w(b, i, i), P(0))
        return nite(eq(i, 0), w(b, j, j), r)
    return lap


def as_mat(N, f):
    i, j = fresh("i"), fresh("j")
    with under(le(0, i), lt(i, N), le(0, j), lt(j, N)):
        return mat([i.as_atom(), j.as_atom()], [N, N], f(i, j))


def part(E, lens, multi):
    B, N, phi, L, ln, w = setup(E, lens)
    lap = laplacian(N, ln, w, multi)
    d = E.ts.NonProjectiveDependencyCRF(phi, L, multiroot=multi)
    ST.fn = "deptree_part"
    p = d.partition
    E.equals("partition is the log-determinant of the Laplacian", p, [B], lambda b: P(atom("logdet", as_mat(N, lambda i, j: lap(b, i, j)))))
    E.frame()


def marg(E, lens, multi):
    B, N, phi, L, ln, w = setup(E, lens)
    lap = laplacian(N, ln, w, multi)
    d = E.ts.NonProjectiveDependencyCRF(phi, L, multiroot=multi)
    ST.fn = "deptree_nonproj"
    m = d.marginals

    def inv(b, i, j):
        return P(atom("inv", as_mat(N, lambda x, y: lap(b, x, y)), i, j))

    def spec(b, h, c):
        if multi:
            return w(b, h, c) * nite(eq(h, c), inv(b, c, c), inv(b, c, c) - inv(b, c, h))
        return w(b, h, c) * nite(eq(h, c), inv(b, c, P(0)), nite(eq(c, 0), P(0), inv(b, c, c)) - nite(eq(h, 0), P(0), inv(b, c, h)))
    E.equals("marginals are the derivative of the log-determinant", m, [B, N, N], spec)
    b, h, c = fresh("b"), fresh("h"), fresh("c")
    with under(*[q for v, n in ((b, B), (h, N), (c, N)) for q in (le(0, v), lt(v, n))]) as ctx:
        ld = P(atom("logdet", as_mat(N, lambda i, j: lap(b, i, j))))
        prove("the stated marginal is that derivative", deriv.deriv(ld, "phi", (b, h, c)), spec(b, h, c), ctx)
    E.frame()


for _l in (False, True):
    for _m in (False, True):
        _t = "%s, %s" % ("lengths" if _l else "no lengths", "multi-root" if _m else "single-root")
        contract("C14", "partition, " + _t, ["NonProjectiveDependencyCRF.partition", "deptree_part"], NOTE)((lambda l, m: (lambda E: part(E, l, m)))(_l, _m))
        contract("C14", "marginals, " + _t, ["NonProjectiveDependencyCRF.marginals", "deptree_nonproj"], NOTE)((lambda l, m: (lambda E: marg(E, l, m)))(_l, _m))
