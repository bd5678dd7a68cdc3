"""Operations of the shadow torch."""
import builtins
from .terms import *
from .ctx import SCHEMAS
from . import terms as T
from .state import *
from .stensor import *
from .stensor import mk, full, zeros, ones, bto, bcast, elementwise, scalar_tensor, bool_, int64, float32
from . import prover

UNROLL = 16


def reduce_dims(t, dims, keepdim, f, dtype):
    """f(list of (var atom, size)) reduction handled by callback on element thunks."""
    raise NotImplementedError


def axis_elems(t, d):
    """(groups without d, function idx -> element reader along axis d)."""
    d = t._d(d)
    rd = t.reader()
    gs = t.groups[:d] + t.groups[d + 1:]
    g = t.groups[d] if t.groups else ()

    def along(idx):
        def at(k):
            if not t.groups:
                return rd(())
            return rd(idx[:d] + (k,) + idx[d:])
        return at
    return gs, g, along, d


def fold(g, at, plus, bindf, zero):
    """Reduce at(k) over the index group g."""
    n = gsize(g)
    if builtins.all(p.const() is not None for p in g) and n.const() <= UNROLL:
        out = None
        import itertools
        for ks in itertools.product(*[range(p.const()) for p in g]):
            e = at(tuple(P(k) for k in ks))
            out = e if out is None else plus(out, e)
        return zero if out is None else out
    vs = [P(0) if p.const() == 1 or decide(eq(p, 1)) is True else fresh("k") for p in g]
    with under(*[c for v, p in zip(vs, g) for c in (le(0, v), lt(v, p))]) as k:
        e = zero if k.dead() else at(tuple(vs))
    for v, p in reversed(list(zip(vs, g))):
        if v.const() == 0:
            continue
        e = bindf(v.as_atom(), P(0), p, e)
    return e


def red(t, dim, keepdim, plus, bindf, zero, dtype, pre=lambda e: e):
    if isinstance(dim, (list, tuple)):
        # an empty list of axes reduces over all of them
        ds = sorted([t._d(d) for d in dim] or list(range(t.dim())), reverse=True)
        for d in ds:
            t = red(t, d, keepdim, plus, bindf, zero, dtype, pre)
        return t
    if dim is None:
        while t.dim():
            t = red(t, 0, False, plus, bindf, zero, dtype, pre)
        return t
    gs, g, along, d = axis_elems(t, dim)
    r = mk(gs, lambda idx: fold(g, (lambda k: pre(along(idx)(k))), plus, bindf, zero), dtype)
    if keepdim:
        r = r.unsqueeze(d)
    return r


def sum_(t, dim=None, keepdim=False, dtype=None):
    dt = dtype or (int64 if t.dtype.kind == "b" else t.dtype)
    return red(t, dim, keepdim, lambda a, b: a + b, bsum, P(0), dt, num)


def prod(t, dim=None, keepdim=False):
    return red(t, dim, keepdim, lambda a, b: a * b, bprod, P(1), t.dtype, num)


def logsumexp(t, dim, keepdim=False):
    if t.dim() == 0:
        return t.clone()
    r = red(t, dim, keepdim, lambda a, b: a + b, bsum, P(0), t.dtype, lambda e: nexp(num(e)))
    return r.map(nlog)


def mean(t, dim=None, keepdim=False):
    s = sum_(t, dim, keepdim)
    n = t.numel() if dim is None else t.shape[dim]
    return s / n


def nmax2(a, b):
    if a is b:
        return a
    c = le(b, a)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return P(atom("max2", *sorted((a, b), key=lambda x: x.id)))


class Pair(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def tmax(t, dim=None, keepdim=False):
    if isinstance(dim, Tensor):
        return elementwise([t, dim], lambda a, b: nmaxel(a, b), t.dtype)
    if dim is None:
        return red(t, None, False, None_plus, bmaxv, NINF, t.dtype, num)
    vals = red(t, dim, keepdim, None_plus, bmaxv, NINF, t.dtype, num)
    gs, g, along, d = axis_elems(t, dim)

    def arg(idx):
        vs = [fresh("k") for _ in g]
        with under(*[c for v, p in zip(vs, g) for c in (le(0, v), lt(v, p))]):
            e = num(along(idx)(tuple(vs)))
        m = T.mat([v.as_atom() for v in vs], list(g), e)
        return P(atom("argmax", m, sort="I"))
    ind = mk(gs, arg, int64)
    if keepdim:
        ind = ind.unsqueeze(d)
    return Pair((vals, ind))


def bmaxv(v, lo, hi, body):
    return bmax(v, lo, hi, body)


def None_plus(a, b):
    # finite maxima are kept as a flat multiset
    xs = list(_maxargs(a)) + list(_maxargs(b))
    return mkmax(xs)


def _maxargs(a):
    at = a.as_atom()
    return at.args if at is not None and at.kind == "maxn" else (a,)


def mkmax(xs):
    out = []
    for x in xs:
        if x is NINF or x in out:
            continue
        out.append(x)
    if not out:
        return NINF
    if len(out) == 1:
        return out[0]
    return P(atom("maxn", *sorted(out, key=lambda x: x.id)))


def nmaxel(a, b):
    return mkmax(list(_maxargs(a)) + list(_maxargs(b)))


def amax(t, dim=None, keepdim=False):
    ST.ties.append("amax")
    return red(t, dim, keepdim, None_plus, bmaxv, NINF, t.dtype, num)


def argmax(t, dim=None, keepdim=False):
    return tmax(t, dim, keepdim)[1]


def tmin(t, dim=None, keepdim=False):
    if dim is None:
        return -(tmax(-t))
    v, i = tmax(-t, dim, keepdim)
    return Pair((-v, i))


def topk(t, k, dim=-1, largest=True, sorted=True):
    """values[j] = j-th largest of the axis (multiset order statistic)."""
    gs, g, along, d = axis_elems(t, dim)
    kk = pl(k)
    if not largest:
        raise Unsupported("topk smallest")
    n = gsize(g)
    if not truth(le(kk, n)):
        raise ShadowError("selected index k out of range")

    def fam(idx):
        vs = [fresh("k") for _ in g]
        with under(*[c for v, p in zip(vs, g) for c in (le(0, v), lt(v, p))]):
            e = num(along(idx)(tuple(vs)))
        return T.mat([v.as_atom() for v in vs], list(g), e)
    kg = () if kk.const() == 1 else (kk,)
    ngs = gs[:d] + [kg] + gs[d:]

    def val(idx):
        j = idx[d][0] if idx[d] else P(0)
        return P(atom("ord", j, fam(idx[:d] + idx[d + 1:])))

    def ind(idx):
        j = idx[d][0] if idx[d] else P(0)
        return P(atom("ordix", j, fam(idx[:d] + idx[d + 1:]), sort="I"))
    return Pair((mk(ngs, val, t.dtype), mk(ngs, ind, int64)))


def sort(t, dim=-1, descending=False):
    gs, g, along, d = axis_elems(t, dim)
    if not descending:
        raise Unsupported("ascending sort")
    n = gsize(g)
    v, i = topk(t, mkint(n), dim)
    return Pair((v, i))


def softmax(t, dim=-1, dtype=None):
    e = t.exp()
    return e / sum_(e, dim, True)


def log_softmax(t, dim=-1, dtype=None):
    return t - logsumexp(t, dim, True)


def cumsum(t, dim):
    gs, g, along, d = axis_elems(t, dim)
    if len(g) > 1:
        raise Unsupported("cumsum of a merged dimension")

    def f(idx):
        if not g:
            return along(idx[:d] + idx[d + 1:])(())
        j = idx[d][0]
        v = fresh("k")
        with under(le(0, v), le(v, j), lt(v, g[0])):
            e = along(idx[:d] + idx[d + 1:])((v,))
        return bsum(v.as_atom(), P(0), j + 1, e)
    return mk(t.groups, f, t.dtype)


def norm(t, p=2, dim=None, keepdim=False):
    if p != 2:
        raise Unsupported("norm p=%r" % p)
    s = sum_(t * t, dim, keepdim)
    return s.map(lambda e: P(atom("sqrt", e)))


def sqrt(t):
    return t.map(lambda e: P(atom("sqrt", e)))


def any_(t, dim=None, keepdim=False):
    return red(t, dim, keepdim, lambda a, b: disj(a, b), bany, FALSE, bool_, boolean)


def all_(t, dim=None, keepdim=False):
    return red(t, dim, keepdim, lambda a, b: conj(a, b), ball, TRUE, bool_, boolean)


# ------------------------------------------------------------------ joining

def stack(ts, dim=0):
    from .slist import SymList, VList
    if isinstance(ts, SymList) and ts.n.const() is None:
        return stack_sym(ts, dim)
    if isinstance(ts, VList) and ts.sym is not None:
        return stack_sym(ts.sym, dim)
    ts = list(ts)
    if not ts:
        raise ShadowError("stack expects a non-empty list")
    t0 = ts[0]
    d = t0._d(dim, 1)
    gs = unify_shapes(ts)
    rds = [bto(t, gs) for t in ts]
    n = len(ts)
    ngs = gs[:d] + [(P(n),) if n > 1 else ()] + gs[d:]

    def f(idx):
        k = idx[d][0] if idx[d] else P(0)
        rest = idx[:d] + idx[d + 1:]
        return select(k, rds, rest)
    return mk(ngs, f, result_dtype(ts))


def select(k, rds, rest):
    c = k.const()
    if c is not None:
        return rds[c](rest)

    def go(i):
        if i == len(rds) - 1:
            return rds[i](rest)
        return ite(eq(k, i), lambda: rds[i](rest), lambda: go(i + 1))
    return go(0)


def unify_shapes(ts):
    gs = list(ts[0].groups)
    for t in ts[1:]:
        if t.dim() != len(gs):
            raise ShadowError("stack: ranks differ")
        for j, g in enumerate(t.groups):
            a, b = gsize(gs[j]), gsize(g)
            if not same(a, b):
                if decide(eq(a, b)) is False or not truth(eq(a, b)):
                    raise ShadowError("stack expects each tensor to be equal size: %r vs %r" % (a, b))
            if len(g) > len(gs[j]):
                gs[j] = g
    return gs


def stack_sym(ts, dim):
    n = ts.n
    k0 = fresh("k")
    with under(le(0, k0), lt(k0, n)):
        t0 = ts.at(k0)
        gs = list(t0.groups)
        dt = t0.dtype
        d = t0._d(dim, 1)
    for g in gs:
        for p in g:
            if k0.as_atom() in fv(p):
                raise Unsupported("stack of tensors of varying shape")
    ngs = gs[:d] + [(n,) if n.const() != 1 else ()] + gs[d:]
    snap = ts.snapshot()

    def f(idx):
        k = idx[d][0] if idx[d] else P(0)
        return snap(k).elem(idx[:d] + idx[d + 1:])
    return mk(ngs, f, dt)


def cat(ts, dim=0):
    from .slist import SymList
    if isinstance(ts, SymList):
        raise Unsupported("cat of a symbolic list")
    ts = list(ts)
    d = ts[0]._d(dim)
    gs = list(ts[0].groups)
    offs = [P(0)]
    for t in ts:
        offs.append(offs[-1] + gsize(t.groups[d]))
        if len(t.groups[d]) > 1:
            raise Unsupported("cat along a merged dimension")
    for t in ts[1:]:
        for j in range(len(gs)):
            if j != d and not same(gsize(gs[j]), gsize(t.groups[j])):
                if not truth(eq(gsize(gs[j]), gsize(t.groups[j]))):
                    raise ShadowError("cat: sizes differ")
    rds = [t.reader() for t in ts]
    grs = [list(t.groups) for t in ts]
    ngs = gs[:d] + [(offs[-1],) if offs[-1].const() != 1 else ()] + gs[d + 1:]

    def f(idx):
        k = idx[d][0] if idx[d] else P(0)

        def go(i):
            r = idx[:d] + (((k - offs[i],) if grs[i][d] else ()),) + idx[d + 1:]
            r = tuple(gmap(grs[i][j], ngs[j])(r[j]) if j != d else r[j] for j in range(len(r)))
            if i == len(rds) - 1:
                return rds[i](r)
            return ite(lt(k, offs[i + 1]), lambda: rds[i](r), lambda: go(i + 1))
        return go(0)
    return mk(ngs, f, result_dtype(ts))


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    a = a if isinstance(a, Tensor) else scalar_tensor(a)
    b = b if isinstance(b, Tensor) else scalar_tensor(b)
    gs = bcast([c, a, b])
    rc, ra, rb = bto(c, gs), bto(a, gs), bto(b, gs)
    r = mk(gs, lambda idx: ite(boolean(rc(idx)), lambda: ra(idx), lambda: rb(idx)), result_dtype([a, b]))
    return r


def matmul(a, b):
    va = a.dim() == 1
    vb = b.dim() == 1
    if va:
        a = a.unsqueeze(0)
    if vb:
        b = b.unsqueeze(-1)
    ga, gb = a.groups[-1], b.groups[-2]
    gk = ga if len(ga) >= len(gb) else gb
    if not same(gsize(ga), gsize(gb)):
        if not truth(eq(gsize(ga), gsize(gb))):
            raise ShadowError("matmul: inner sizes differ")
    la, lb = a.groups[:-2], b.groups[:-2]
    n = builtins.max(len(la), len(lb))
    la2, lb2 = [()] * (n - len(la)) + la, [()] * (n - len(lb)) + lb
    lead = [bgroup(x, y) for x, y in zip(la2, lb2)]
    ra, rb = a.reader(), b.reader()
    gs = lead + [a.groups[-2], b.groups[-1]]

    def f(idx):
        L = idx[:-2]
        i, j = idx[-2], idx[-1]
        ia = tuple(gmap(g, lead[n - len(la) + q])(L[n - len(la) + q]) for q, g in enumerate(la))
        ib = tuple(gmap(g, lead[n - len(lb) + q])(L[n - len(lb) + q]) for q, g in enumerate(lb))

        def at(k):
            return ra(ia + (i, gmap(ga, gk)(k))) * rb(ib + (gmap(gb, gk)(k), j))
        return fold(gk, at, lambda x, y: x + y, bsum, P(0))
    r = mk(gs, f, result_dtype([a, b]))
    if va:
        r = r.squeeze(-2)
    if vb:
        r = r.squeeze(-1)
    return r


def gather(t, dim, index):
    d = t._d(dim)
    rd, ri = t.reader(), index.reader()
    gs = list(index.groups)
    tg = list(t.groups)

    def f(idx):
        e = ri(idx)
        full_ = []
        for j in range(len(tg)):
            full_.append(to_group(e, tg[j]) if j == d else gmap(tg[j], gs[j])(idx[j]))
        return rd(tuple(full_))
    idx = index.fresh_idx()
    n = gsize(tg[d])
    with under(*index.ranges(idx)) as c:
        if not c.dead():
            e = ri(idx)
            ok = decide(conj(le(0, e), lt(e, n)))
            if ok is False:
                raise ShadowError("gather index out of range: %r of %r" % (e, n))
            ob("gather: index in range", ok is True, "index %r not provably within %r" % (e, n), None, "proved" if ok else "unknown")
    return mk(gs, f, t.dtype)


def one_hot(t, n=-1):
    p = pl(n)
    rd = t.reader()
    gs = list(t.groups) + [(p,) if p.const() != 1 else ()]
    return mk(gs, lambda idx: b2n(eq(rd(idx[:-1]), idx[-1][0] if idx[-1] else P(0))), int64)


def arange(*a, dtype=None, device=None, **k):
    if len(a) == 1:
        lo, hi, st = P(0), pl(a[0]), P(1)
    else:
        lo, hi = pl(a[0]), pl(a[1])
        st = pl(a[2]) if len(a) > 2 else P(1)
    s = st.const()
    if s in (1, -1):
        n = (hi - lo) * s
    else:
        raise Unsupported("arange step")
    if decide(le(0, n)) is not True:
        if not truth(le(0, n)):
            raise ShadowError("arange bounds")
    g = () if n.const() == 1 else (n,)
    return mk([g], lambda idx: lo + (idx[0][0] if idx[0] else P(0)) * s, dtype or int64)


def eye(n, m=None, **k):
    a = pl(n)
    b = pl(m) if m is not None else a
    gs = [() if p.const() == 1 else (p,) for p in (a, b)]
    return mk(gs, lambda idx: b2n(eq(idx[0][0] if idx[0] else P(0), idx[1][0] if idx[1] else P(0))), float32)


def diag_embed(t, offset=0, dim1=-2, dim2=-1):
    if pl(offset).const() != 0:
        raise Unsupported("diag_embed offset")
    n = t.dim() + 1
    d1, d2 = dim1 % n, dim2 % n
    rd = t.reader()
    g = t.groups[-1]
    gs = list(t.groups[:-1])
    lo, hi = builtins.min(d1, d2), builtins.max(d1, d2)
    gs.insert(lo, g)
    gs.insert(hi, g)

    def f(idx):
        i, j = idx[lo], idx[hi]
        rest = tuple(x for q, x in enumerate(idx) if q not in (lo, hi))
        c = conj(*[eq(x, y) for x, y in zip(i, j)])
        return ite(c, lambda: num(rd(rest + (i,))), lambda: P(0))
    return mk(gs, f, t.dtype if t.dtype.kind != "b" else int64)


def inverse(t):
    rd = t.reader()
    gi, gj = t.groups[-2], t.groups[-1]

    def f(idx):
        vs = [fresh("k") for _ in gi + gj]
        ii, jj = tuple(vs[:len(gi)]), tuple(vs[len(gi):])
        with under(*[c for v, p in zip(vs, gi + gj) for c in (le(0, v), lt(v, p))]):
            e = rd(idx[:-2] + (ii, jj))
        m = T.mat([v.as_atom() for v in vs], list(gi + gj), e)
        return P(atom("inv", m, lin(idx[-2], gi), lin(idx[-1], gj)))
    return mk(t.groups, f, t.dtype)


def logdet(t):
    rd = t.reader()
    gi, gj = t.groups[-2], t.groups[-1]

    def f(idx):
        vs = [fresh("k") for _ in gi + gj]
        ii, jj = tuple(vs[:len(gi)]), tuple(vs[len(gi):])
        with under(*[c for v, p in zip(vs, gi + gj) for c in (le(0, v), lt(v, p))]):
            e = rd(idx + (ii, jj))
        m = T.mat([v.as_atom() for v in vs], list(gi + gj), e)
        return P(atom("logdet", m))
    return mk(t.groups[:-2], f, t.dtype)


def slogdet(t):
    raise Unsupported("slogdet")


def minimum(a, b):
    return -elementwise([-a, -b], nmaxel, result_dtype([a, b]))


def maximum(a, b):
    ST.ties.append("maximum")
    return elementwise([a, b], nmaxel, result_dtype([a, b]))


for _n, _f in dict(sum=sum_, prod=prod, logsumexp=logsumexp, max=tmax, min=tmin, amax=amax, argmax=argmax, topk=topk, sort=sort,
                   softmax=softmax, log_softmax=log_softmax, cumsum=cumsum, norm=norm, any=any_, all=all_, matmul=matmul,
                   bmm=matmul, gather=gather, inverse=inverse, logdet=logdet, sqrt=sqrt, mean=mean,
                   diag_embed=diag_embed).items():
    setattr(Tensor, _n, _f)


class NonZero:
    """Positions of the non-zero elements: row i has coordinates coord(j, i); every non-zero element has a row index(*pos)."""

    def __init__(self, t):
        self.name = "nz!%d" % ST.tick()
        self.rank = t.dim()
        rd, gs = t.reader(), list(t.groups)
        self.dims = [gsize(g) for g in gs]
        self.M = fresh("M")
        assume(le(0, self.M))
        bool_t = t.dtype.kind == "b"

        def on(pos):
            e = rd(tuple(to_group(p, g) for p, g in zip(pos, gs)))
            return e if bool_t else ne(e, 0)

        gen = [fresh("p") for _ in range(self.rank)]
        grng = [c for p, n in zip(gen, self.dims) for c in (le(0, p), lt(p, n))]
        with under(*grng):
            ge = conj(on(gen), *grng)
        cell = lambda pos: subst(ge, {g.as_atom(): p for g, p in zip(gen, pos)})

        def row(i):
            return [disj(neg(le(0, i)), neg(lt(i, self.M)), cell([self.coord(j, i) for j in range(self.rank)]))]

        def found(args, val):
            return [disj(neg(cell(args)), conj(le(0, val), lt(val, self.M), *[eq(self.coord(j, val), a) for j, a in enumerate(args)]))]
        for j in range(self.rank):
            SCHEMAS["%s_%d" % (self.name, j)] = lambda args, val: row(args[0])
        SCHEMAS[self.name + "_at"] = found
        ST.nonzeros.append(self)

    def coord(self, j, i):
        return app("%s_%d" % (self.name, j), i, sort="I")

    def index(self, *pos):
        return app(self.name + "_at", *pos, sort="I")


def nonzero(t, as_tuple=False):
    z = NonZero(t)
    if as_tuple:
        return tuple(mk([(z.M,)], lambda idx, j=j: z.coord(j, idx[0][0]), int64) for j in range(z.rank))

    def f(idx):
        r = z.coord(z.rank - 1, idx[0][0])
        for j in reversed(range(z.rank - 1)):
            r = nite(eq(idx[1][0], j), z.coord(j, idx[0][0]), r)
        return r
    if z.rank == 1:
        return mk([(z.M,), ()], lambda idx: z.coord(0, idx[0][0]), int64)
    return mk([(z.M,), (P(z.rank),)], f, int64)


Tensor.nonzero = nonzero
