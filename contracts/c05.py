"""CFG inside algorithm (CKY)."""
from vt.contract import *
from vt import terms as T_


def inside(N, NT, T):
    t = lambda b, i, a: vin(app("terms", b, i, a))
    r = lambda b, x, y, z: vin(app("rules", b, x, y, z))
    G = lambda b, i, j, x: vapp("G", b, i, j, x)

    def S2(n, m, f):
        y, z = fresh("y"), fresh("z")
        return vsum(y.as_atom(), 0, n, vsum(z.as_atom(), 0, m, f(y, z)))

    def unfold(b, i, j, x):
        k = fresh("k")
        two = vsum(k.as_atom(), 0, j - i, S2(NT, NT, lambda y, z: vtimes(G(b, i, i + k, y), G(b, i + k + 1, j, z), r(b, x, y, z))))
        left = S2(NT, T, lambda y, z: vtimes(G(b, i, j - 1, y), t(b, j, z), r(b, x, y, NT + z)))
        right = S2(T, NT, lambda y, z: vtimes(t(b, i, y), G(b, i + 1, j, z), r(b, x, NT + y, z)))
        leaf = S2(T, T, lambda y, z: vtimes(t(b, i, y), t(b, j, z), r(b, x, NT + y, NT + z)))
        return vite(eq(i, j), ZERO, vplus(two, left, right, vite(eq(j, i + 1), leaf, ZERO)))
    prover.UNFOLD["G"] = unfold
    T_.APPNORM["G"] = lambda b, i, j, x: ZERO if (j - i).const() == 0 else None
    return G


def charts(N, G):
    def tf(loop, dims, st):
        if len(dims) != 5:
            return

        def A(k, fl):
            s, b, i, d, x = fl
            return nite(conj(le(1, d), lt(d, k + 1), lt(i + d, N)), comp(s, G(b, i, i + d, x)), comp(s, ZERO))

        def B(k, fl):
            s, b, j, e, x = fl
            d = N - 1 - e
            return nite(conj(le(1, d), lt(d, k + 1), le(0, j - d)), comp(s, G(b, j - d, j, x)), comp(s, ZERO))
        yield "left chart", A
        yield "right chart", B
    return tf


def run(E, with_len, facade=False):
    B, N, NT, T, S = E.size("B"), E.size("N", 2), E.size("NT"), E.size("T"), E.size("S")
    terms = E.tensor("terms", [B, N, T])
    rules = E.tensor("rules", [B, NT, NT + T, NT + T])
    roots = E.tensor("roots", [B, NT])
    L = E.lengths("len", B, P(2), N) if with_len else None
    G = inside(N, NT, T)
    ST.templates = [charts(N, G)]
    sr = AbsSemiring(S)
    x = fresh("x")
    spec = lambda b: vsum(x.as_atom(), 0, NT, vtimes(G(b, P(0), (app("len", b, sort="I") if with_len else N) - 1, x), vin(app("roots", b, x))))
    if facade:
        v = E.partition(sr, lambda: E.ts.SentCFG((terms, rules, roots), L))
        E.equals("partition is the inside sum over trees of words 0..length-1", v, [B], lambda b: vun(spec(b)))
        E.frame()
        return
    ST.fn = "CKY.logpartition"
    v, _ = E.ts.CKY(sr).logpartition((terms, rules, roots), L)
    E.equals("result is the inside sum over trees of words 0..length-1", v, [S, B], lambda s, b: comp(s, spec(b)))
    E.frame()


@contract("C05", "CKY.logpartition, no lengths", ["CKY.logpartition", "Chart"])
def nolen(E):
    run(E, False)


@contract("C05", "CKY.logpartition, lengths", ["CKY.logpartition", "Chart"])
def withlen(E):
    run(E, True)


for _l in (False, True):
    contract("C05", "SentCFG.partition, " + ("lengths" if _l else "no lengths"), ["StructDistribution.partition", "StructDistribution._struct", "SentCFG.__init__", "_Struct.sum", "CKY.logpartition"])(
        lambda E, l=_l: run(E, l, True))
