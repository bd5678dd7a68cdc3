"""Semiring algebra: every operation of every semiring class computes the stated formula at every index."""
from vt.contract import *
from .algebra import *


PLAIN = (1, lambda f, n: (lambda s: sum_(lambda k: f(k)(0), n)), add, [[BIG], [0]])


class Bmm:
    """Contract of the optional genbmm library: batched matrix products of three-axis operands in the log and max semirings."""
    BandedMatrix = type("BandedMatrix", (), {})

    @staticmethod
    def pairs(a, b):
        if a.dim() != 3 or b.dim() != 3:
            raise ShadowError("genbmm takes operands of rank 3")
        return a.unsqueeze(-1) + b.unsqueeze(-3)

    logbmm = samplebmm = staticmethod(lambda a, b: Bmm.pairs(a, b).logsumexp(-2))
    maxbmm = staticmethod(lambda a, b: Bmm.pairs(a, b).max(-2)[0])


def resolve(E, cls):
    """Algebra and class.  "cls via sum": a subclass whose sum is a plain sum, to show that every other operation reduces with cls.sum."""
    if cls in ALG:
        return ALG[cls], getattr(E.mod("torch_struct.semirings.semirings"), cls)
    if cls[:4] == "Fast":
        E.put("torch_struct.semirings.fast_semirings", "genbmm", Bmm)
        return ALG[cls[4:].replace("Sample", "Log")], getattr(E.mod("torch_struct.semirings.fast_semirings"), cls)
    name, _, probe = cls.partition(" ")
    sr = getattr(E.mod("torch_struct.semirings.sample"), name)
    if name[:6] == "Gumbel":
        sr = sr(0.5)
    if not probe:
        return ALG["LogSemiring"], sr
    torch = E.mod("torch_struct.semirings.sample").torch
    return PLAIN, type("Probe", (sr,), {"sum": staticmethod(lambda xs, dim=-1: torch.sum(xs, dim=dim))})


def comps(E, name, t, dims, spec):
    """t[s, idx] == spec(s, *idx) for each component s."""
    s0 = P(dims[0]).const()
    if not E.shape(name, t, dims):
        return
    for s in range(s0):
        E.equals("%s, component %d" % (name, s), t[s], dims[1:], lambda *i: spec(s, *i))


def ops(E, cls, rank):
    (S, fold, times, (zero, one)), sr = resolve(E, cls)
    D = [E.size("d%d" % i) for i in range(rank)]
    A, Bt = E.tensor("a", [S] + D), E.tensor("b", [S] + D)
    a, b = (lambda *i: (lambda s: app("a", P(s), *i))), (lambda *i: (lambda s: app("b", P(s), *i)))
    if S == 1:
        a, b = (lambda *i: (lambda s: app("a", P(0), *i))), (lambda *i: (lambda s: app("b", P(0), *i)))
    ST.fn = cls
    if isinstance(S, int):
        n = sr.size()
        ob("size", n == S, "size() is %r" % (n,), status=None)
    comps(E, "mul", sr.mul(A, Bt), [S] + D, lambda s, *i: times(a(*i)(s), b(*i)(s)))
    comps(E, "times of three", sr.times(A, Bt, A), [S] + D, lambda s, *i: times(times(a(*i)(s), b(*i)(s)), a(*i)(s)))
    comps(E, "times of one", sr.times(A), [S] + D, lambda s, *i: a(*i)(s))
    comps(E, "plus", sr.plus(A, Bt), [S] + D, lambda s, *i: fold(lambda k: (lambda c: nite(eq(k, 0), a(*i)(c), b(*i)(c))), P(2))(s))
    if rank:
        axes = [-1] + list(range(1, rank + 1)) + [-j for j in range(2, rank + 1)]
        for d in axes:
            ax = d - 1 if d > 0 else rank + d
            r = sr.sum(A, dim=d)
            comps(E, "sum over axis %d" % d, r, [S] + D[:ax] + D[ax + 1:], lambda s, *i: fold(lambda k: a(*(i[:ax] + (k,) + i[ax:])), D[ax])(s))
        comps(E, "sum, default axis", sr.sum(A), [S] + D[:-1], lambda s, *i: fold(lambda k: a(*(i + (k,))), D[-1])(s))
        if times is add:
            for d in axes:
                ax = d - 1 if d > 0 else rank + d
                comps(E, "prod over axis %d" % d, sr.prod(A, dim=d), [S] + D[:ax] + D[ax + 1:],
                      lambda s, *i: sum_(lambda k: a(*(i[:ax] + (k,) + i[ax:]))(s), D[ax]))
        comps(E, "dot", sr.dot(A, Bt), [S] + D[:-1],
              lambda s, *i: fold(lambda k: (lambda c: times(a(*(i + (k,)))(c), b(*(i + (k,)))(c))), D[-1])(s))
    M = E.tensor("mask", [S] + D, bool_)
    m = lambda s, *i: n2b(app("mask", P(s), *i))
    for nm, val, tv in (("zero", sr.zero, zero), ("one", sr.one, one)):
        comps(E, "fill with %s" % nm, sr.fill(A, M, val), [S] + D,
              lambda s, *i: nite(bapp("mask", P(s), *i), P(tv[s]), a(*i)(s)))
    E.frame()


def matmuls(E, cls, batch, pat):
    """matmul with broadcasting of the batch axes; pat gives for each batch axis which operands have size one."""
    (S, fold, times, _), sr = resolve(E, cls)
    D = [E.size("d%d" % i) for i in range(batch)]
    I, K, J = E.size("I"), E.size("K"), E.size("J")
    da = [1 if pat[i] == "a" else D[i] for i in range(batch)]
    db = [1 if pat[i] == "b" else D[i] for i in range(batch)]
    A, Bt = E.tensor("a", [S] + da + [I, K]), E.tensor("b", [S] + db + [K, J])
    ia = lambda i: tuple(P(0) if pat[q] == "a" else i[q] for q in range(batch))
    ib = lambda i: tuple(P(0) if pat[q] == "b" else i[q] for q in range(batch))

    def spec(s, *i):
        x, y, ij = ia(i), ib(i), i[batch:]
        return fold(lambda k: (lambda c: times(app("a", P(c), *(x + (ij[0], k))), app("b", P(c), *(y + (k, ij[1]))))), K)(s)
    ST.fn = cls
    comps(E, "matmul contracts the last axis with the second last", sr.matmul(A, Bt), [S] + D + [I, J], spec)
    A2, B2 = A.transpose(-1, -2), Bt.transpose(-1, -2)
    da2, db2 = E.tensor("a2", [S] + da + [K]), E.tensor("b2", [S] + db + [K])
    comps(E, "dot with broadcasting", sr.dot(da2, db2), [S] + D,
          lambda s, *i: fold(lambda k: (lambda c: times(app("a2", P(c), *(ia(i) + (k,))), app("b2", P(c), *(ib(i) + (k,))))), K)(s))
    E.frame()


def conv(E, cls, rank):
    (S, fold, times, (zero, one)), sr = resolve(E, cls)
    D = [E.size("d%d" % i) for i in range(rank)]
    ST.fn = cls + ".convert"
    X = E.tensor("x", D)
    if S == 3:
        Y = E.tensor("y", D)
        c = sr.convert([X, Y])
        comps(E, "convert", c, [3] + D, lambda s, *i: app("x", *i) if s == 0 else app("y", *i) if s == 1 else P(0))
    else:
        c = sr.convert(X)
        comps(E, "convert", c, [S] + D, lambda s, *i: app("x", *i) if s == 0 else P(0))
        m = sr.convert(E.tensor("m", D, bool_))
        if S == 1:
            E.equals("convert of a mask", m, [1] + D, lambda s, *i: bapp("m", *i))
        else:
            E.equals("convert of a mask, component 0", m[0], D, lambda *i: bapp("m", *i))
    ST.fn = cls + ".unconvert"
    E.equals("unconvert", sr.unconvert(E.tensor("z", [S] + D)), D, lambda *i: app("z", P({1: 0, 2: 1, 3: 2}[S]), *i))
    for s in range(S):
        for nm, t, v in (("zero", sr.zero, zero), ("one", sr.one, one)):
            e = t.reshape(-1)
            E.equals("%s, component %d" % (nm, s), e[s], [], lambda: P(v[s]))
    E.frame()


RANKS = (0, 1, 2, 3, 5)
for _c in ALG:
    for _r in RANKS:
        contract("C06", "%s elementwise and reductions, rank %d" % (_c, _r),
                 ["%s.%s" % (_c, f) for f in ("sum", "mul", "prod", "size", "zero", "one")] + ["Semiring." + f for f in ("times", "plus", "dot", "fill")],
                 )((lambda c, r: (lambda E: ops(E, c, r)))(_c, _r))
    for _p in ("", "-", "a", "b", "--", "ab", "-a", "b-", "a-b"):
        contract("C06", "%s matmul and dot, broadcasting [%s]" % (_c, _p), ["%s.matmul" % _c, "Semiring.dot", "semirings.matmul"],
                 )((lambda c, p: (lambda E: matmuls(E, c, len(p), p)))(_c, _p))
    for _r in (0, 1, 3):
        contract("C06", "%s conversions, rank %d" % (_c, _r), ["%s.convert" % _c, "%s.unconvert" % _c],
                 )((lambda c, r: (lambda E: conv(E, c, r)))(_c, _r))

GENBMM = ["genbmm (optional, not installed here) computes the batched matrix product its name says"]
for _c in ("FastLogSemiring", "FastMaxSemiring", "FastSampleSemiring"):
    for _r in (1, 3):
        contract("C06", "%s elementwise and reductions, rank %d" % (_c, _r), [_c + ".sum", _c + ".mul", _c + ".prod"])(lambda E, c=_c, r=_r: ops(E, c, r))
    for _p in ("", "-", "a", "b", "--", "ab"):
        contract("C06", "%s matmul, broadcasting [%s]" % (_c, _p), [_c + ".matmul", "fast_semirings.broadcast", "fast_semirings.matmul_size"], GENBMM)(
            lambda E, c=_c, p=_p: matmuls(E, c, len(p), p))


# ---------------------------------------------------------------- k-max: vectors of the k largest values, k symbolic

def kmax(E, what, rank, pat=""):
    k = E.size("k")
    sr = E.mod("torch_struct.semirings.semirings").KMaxSemiring(mkint(k))
    D = [E.size("d%d" % i) for i in range(rank)]
    times = lambda a, b: (lambda j: kth(j, [k, k], lambda s, t: a(s) + b(t)))
    fold = lambda f, n: (lambda j: kth(j, [n, k], lambda i, s: f(i)(s)))
    ST.fn = "KMaxSemiring"
    if what == "ops":
        A, Bt = E.tensor("a", [k] + D), E.tensor("b", [k] + D)
        a, b = (lambda *i: (lambda s: app("a", s, *i))), (lambda *i: (lambda s: app("b", s, *i)))
        E.holds("size", eq(pl(sr.size()), k))
        E.equals("mul", sr.mul(A, Bt), [k] + D, lambda s, *i: times(a(*i), b(*i))(s))
        E.equals("times of three", sr.times(A, Bt, A), [k] + D, lambda s, *i: times(times(a(*i), b(*i)), a(*i))(s))
        E.equals("plus", sr.plus(A, Bt), [k] + D, lambda s, *i: fold(lambda q: (lambda c: nite(eq(q, 0), a(*i)(c), b(*i)(c))), P(2))(s))
        if rank:
            E.equals("sum", sr.sum(A), [k] + D[:-1], lambda s, *i: fold(lambda q: a(*(i + (q,))), D[-1])(s))
            E.equals("dot", sr.dot(A, Bt), [k] + D[:-1], lambda s, *i: fold(lambda q: times(a(*(i + (q,))), b(*(i + (q,)))), D[-1])(s))
        M = E.tensor("mask", [k] + D, bool_)
        for nm, val, tv in (("zero", sr.zero, lambda s: BIG), ("one", sr.one, lambda s: nite(eq(s, 0), P(0), BIG))):
            E.equals("fill with %s" % nm, sr.fill(A, M, val), [k] + D, lambda s, *i: nite(bapp("mask", s, *i), tv(s), a(*i)(s)))
    elif what == "matmul":
        I, K, J = E.size("I"), E.size("K"), E.size("J")
        da = [1 if pat[i] == "a" else D[i] for i in range(rank)]
        db = [1 if pat[i] == "b" else D[i] for i in range(rank)]
        A, Bt = E.tensor("a", [k] + da + [I, K]), E.tensor("b", [k] + db + [K, J])
        ia = lambda i: tuple(P(0) if pat[q] == "a" else i[q] for q in range(rank))
        ib = lambda i: tuple(P(0) if pat[q] == "b" else i[q] for q in range(rank))
        E.equals("matmul", sr.matmul(A, Bt), [k] + D + [I, J], lambda s, *i: fold(lambda q: times(
            lambda c: app("a", c, *(ia(i) + (i[rank], q))), lambda c: app("b", c, *(ib(i) + (q, i[rank + 1])))), K)(s))
    else:
        X = E.tensor("x", D)
        E.equals("convert", sr.convert(X), [k] + D, lambda s, *i: nite(eq(s, 0), app("x", *i), BIG))
        m = sr.convert(E.tensor("m", D, bool_))
        E.equals("convert of a mask, component 0", m[0], D, lambda *i: bapp("m", *i))
        E.equals("unconvert", sr.unconvert(E.tensor("z", [k] + D)), D, lambda *i: app("z", P(0), *i))
        E.equals("zero", sr.zero, [k], lambda s: BIG)
        E.equals("one", sr.one, [k], lambda s: nite(eq(s, 0), P(0), BIG))
    E.frame()


for _r in RANKS:
    contract("C06", "KMaxSemiring elementwise and reductions, rank %d" % _r, ["KMaxSemiring.%s" % f for f in ("sum", "mul", "size", "zero", "one")])(
        (lambda r: (lambda E: kmax(E, "ops", r)))(_r))
for _p in ("", "-", "a", "b", "ab"):
    contract("C06", "KMaxSemiring matmul, broadcasting [%s]" % _p, ["KMaxSemiring.matmul", "semirings.matmul"])(
        (lambda p: (lambda E: kmax(E, "matmul", len(p), p)))(_p))
for _r in (0, 1, 3):
    contract("C06", "KMaxSemiring conversions, rank %d" % _r, ["KMaxSemiring.convert", "KMaxSemiring.unconvert"])(
        (lambda r: (lambda E: kmax(E, "conv", r)))(_r))


# ---------------------------------------------------------------- the stated algebras are commutative semirings

def laws(E, cls):
    S, fold, times, (zero, one) = ALG[cls]
    n, m = E.size("n"), E.size("m")
    x = lambda *i: (lambda s: app("x", P(s), *i))
    y = lambda *i: (lambda s: app("y", P(s), *i))
    tm = lambda a, b: (lambda s: times(a(s), b(s)))
    ST.fn = cls
    for s in range(S):
        prove("product of a sum, component %d" % s, times(y()(s), fold(lambda k: x(k), n)(s)), fold(lambda k: tm(y(), x(k)), n)(s))
        prove("sums may be exchanged, component %d" % s, fold(lambda i: fold(lambda j: x(i, j), m), n)(s), fold(lambda j: fold(lambda i: x(i, j), n), m)(s))
        prove("one is neutral, component %d" % s, times(y()(s), P(one[s])), y()(s))
        prove("sum of one, component %d" % s, fold(lambda k: y(), P(1))(s), y()(s))


for _c in ALG:
    contract("C06", "%s: laws of the stated algebra" % _c, [_c])((lambda c: (lambda E: laws(E, c)))(_c))
