"""Sparsemax sums: the backward pass is the simplex projection, its own backward pass the projection's Jacobian."""
from vt.contract import *
from vt.stensor import mkint, pl

NOTE = ["torch.sort orders an axis descending (order statistics)", "autograd calls the backward functions as documented"]


def setup(E, rank, dim):
    names = ["A", "B", "D", "F", "G"][:rank]
    dims = [E.size(n) for n in names]
    x = E.tensor("x", dims)
    n = dims[dim]
    rest = lambda idx: [i for j, i in enumerate(idx) if j != dim % rank]
    put = lambda r, v: list(r[:dim % rank]) + [v] + list(r[dim % rank:])
    return dims, x, n, rest, put


def projection(n, rest, put, dim):
    """w = max(x - tau, 0) with tau = (sum of the k largest - 1) / k, k the number of j with u_j >= (u_0 + .. + u_j - 1) / (j + 1)."""
    def parts(idx):
        r = rest(idx)
        v = fresh("v")
        fam = T.mat([v.as_atom()], [n], app("x", *put(r, v)))
        u = lambda j: P(atom("ord", j, fam))

        def css(j):
            i = fresh("i")
            return bsum(i.as_atom(), 0, j + 1, u(i)) - 1
        j = fresh("j")
        k = bsum(j.as_atom(), 0, n, nite(le(0, u(j) - css(j) * recip(j + 1)), P(1), P(0)))
        return k, css(k - 1) * recip(k)

    def w(*idx):
        k, tau = parts(idx)
        e = app("x", *idx) - tau
        return nite(le(0, e), e, P(0))
    return w


def first(E, rank, dim):
    dims, x, n, rest, put = setup(E, rank, dim)
    m = E.mod("torch_struct.semirings.sparse_max")
    w = projection(n, rest, put, dim)
    r = m.SparseMaxSemiring.sum(x, dim)
    out = [d for j, d in enumerate(dims) if j != dim % rank]
    if not E.shape("sum", r, out):
        return
    g = E.tensor("g", out)
    gi = r.grad_fn.cls.backward(r.grad_fn.ctx, g)
    E.equals("gradient of the sum", gi[0], dims, lambda *idx: app("g", *rest(idx)) * w(*idx))
    E.frame()


def second(E, rank, dim):
    dims, x, n, rest, put = setup(E, rank, dim)
    m = E.mod("torch_struct.semirings.sparse_max")
    w = projection(n, rest, put, dim)
    r = m.SparseMaxSemiring.sum(x, dim)
    del ST.grads[:]
    r.grad_fn.cls.backward(r.grad_fn.ctx, E.tensor("g0", [d for j, d in enumerate(dims) if j != dim % rank]))
    if len(ST.grads) != 1:
        raise Unsupported("the backward pass does not apply exactly one differentiable function")
    t = ST.grads[0]
    E.equals("the differentiable function returns the projection", t, dims, w)
    g = E.tensor("g", dims)
    gi = t.grad_fn.cls.backward(t.grad_fn.ctx, g)

    def jac(*idx):
        r = rest(idx)
        on = lambda v: lt(P(0), w(*put(r, v)))
        j = fresh("j")
        tot = bsum(j.as_atom(), 0, n, nite(on(j), app("g", *put(r, j)), P(0)))
        cnt = bsum(j.as_atom(), 0, n, nite(on(j), P(1), P(0)))
        return nite(lt(P(0), w(*idx)), app("g", *idx) - tot * recip(cnt), P(0))
    E.equals("support-restricted centring", gi[0], dims, jac)
    E.frame()


for _r in (1, 2, 3, 4, 5):
    for _d in list(range(_r)) + list(range(-_r, 0)):
        _s = "rank %d, axis %d" % (_r, _d)
        contract("C19", "sparsemax sum, " + _s, ["SparseMaxSemiring.sum", "_SimplexProject", "project_simplex"], NOTE)(lambda E, r=_r, d=_d: first(E, r, d))
        contract("C19", "sparsemax second derivative, " + _s, ["_SparseMaxGrad", "sparsemax_grad"], NOTE)(lambda E, r=_r, d=_d: second(E, r, d))
