"""Projective dependency trees (DepTree)."""
from vt.contract import *


def eisner(N, arc):
    """Complete/incomplete spans over nodes 0..N-1 (0 is the root symbol); arc(b,h,m) is the arc value."""
    f = {n: (lambda n: (lambda b, i, j: vapp(n, b, i, j)))(n) for n in ("CL", "CR", "IL", "IR")}

    def S(n, g):
        k = fresh("k")
        return vsum(k.as_atom(), 0, n, g(k))
    U = prover.UNFOLD
    join = lambda b, i, j: S(j - i, lambda k: vtimes(f["CR"](b, i, i + k), f["CL"](b, i + k + 1, j)))
    U["IL"] = lambda b, i, j: vtimes(join(b, i, j), arc(b, j, i))
    U["IR"] = lambda b, i, j: vtimes(join(b, i, j), arc(b, i, j))
    U["CL"] = lambda b, i, j: vite(eq(i, j), ONE, S(j - i, lambda k: vtimes(f["CL"](b, i, i + k), f["IL"](b, i + k, j))))
    U["CR"] = lambda b, i, j: vite(eq(i, j), ONE, S(j - i, lambda k: vtimes(f["IR"](b, i, i + k + 1), f["CR"](b, i + k + 1, j))))
    for n in ("CL", "CR"):
        T.APPNORM[n] = lambda b, i, j: ONE if (j - i).const() == 0 else None
    return f


def charts(N, f, start):
    def tf(loop, dims, st):
        if len(dims) != 4:
            return

        def left(g, comp_, nm):
            def A(k, fl):
                s, b, i, d = fl
                c = conj(le(P(0 if comp_ else 1), d), lt(d, k + 1), lt(i + d, N), le(P(start), i))
                z = nite(eq(d, 0), comp(s, ONE), comp(s, ZERO)) if comp_ else comp(s, ZERO)
                return nite(c, comp(s, g(b, i, i + d)), z)
            return "left chart of " + nm, A

        def right(g, comp_, nm):
            def Bc(k, fl):
                s, b, j, e = fl
                d = N - 1 - e
                c = conj(le(P(0 if comp_ else 1), d), lt(d, k + 1), le(P(start), j - d))
                z = nite(eq(d, 0), comp(s, ONE), comp(s, ZERO)) if comp_ else comp(s, ZERO)
                return nite(c, comp(s, g(b, j - d, j)), z)
            return "right chart of " + nm, Bc
        if loop.it.n is not None and same(loop.n, N - start - 1):
            for nm in ("CR", "CL", "IR", "IL"):
                yield left(f[nm], nm[0] == "C", nm)
                yield right(f[nm], nm[0] == "C", nm)
    return tf


def setup(E, with_len, labels):
    B, n, S = E.size("B"), E.size("n"), E.size("S")
    N = n + 1
    dims = [B, n, n]
    if labels:
        R = E.size("R")
        dims.append(R)
    phi = E.tensor("phi", dims)
    L = E.lengths("len", B, P(1), n) if with_len else None
    ln = (lambda b: app("len", b, sort="I")) if with_len else (lambda b: n)

    def base(b, h, m):
        def one(*l):
            r = vite(eq(h, 0), vin(app("phi", b, m - 1, m - 1, *l)), vin(app("phi", b, h - 1, m - 1, *l)))
            return vite(disj(eq(m, 0), eq(h, m)), vin(P(-1000000000)), r)
        if labels:
            l = fresh("l")
            return vsum(l.as_atom(), 0, R, one(l))
        return one()

    def arc(b, h, m):
        return vite(conj(le(h, ln(b)), le(m, ln(b))), base(b, h, m), ZERO)
    sr = AbsSemiring(S)
    return B, n, N, S, phi, L, ln, arc, sr


def run(E, with_len, labels, multi, facade=False):
    B, n, N, S, phi, L, ln, arc, sr = setup(E, with_len, labels)
    f = eisner(N, arc)
    ST.templates = [charts(N, f, 0 if multi else 1)]
    if facade:
        v = E.partition(sr, lambda: E.ts.DependencyCRF(phi, L, multiroot=multi))
    else:
        v = sums(E, sr, phi, L, multi)
    if multi:
        spec = lambda b: f["CR"](b, P(0), ln(b))
    else:
        k = fresh("k")
        spec = lambda b: vsum(k.as_atom(), 0, ln(b), vtimes(f["CL"](b, P(1), k + 1), arc(b, P(0), k + 1), f["CR"](b, k + 1, ln(b))))
    if facade:
        E.equals("partition is the Eisner sum of words 1..length", v, [B], lambda b: vun(spec(b)))
    else:
        E.equals("result is the Eisner sum of words 1..length", v, [S, B], lambda s, b: comp(s, spec(b)))
    E.frame()


def sums(E, sr, phi, L, multi):
    ST.fn = "DepTree.logpartition"
    st = E.ts.DepTree(sr)
    st.multiroot = multi
    v, _ = st.logpartition(phi, L)
    return v


for _w in (False, True):
    for _l in (False, True):
        for _m in (True, False):
            contract("C03", "DepTree.logpartition, %s, %s, %s" % ("lengths" if _w else "no lengths", "labelled" if _l else "unlabelled", "multi-root" if _m else "single-root"),
                     ["DepTree.logpartition", "DepTree._check_potentials", "deptree.convert", "Chart"])(
                (lambda w, l, m: (lambda E: run(E, w, l, m)))(_w, _l, _m))

for _w in (False, True):
    for _m in (True, False):
        contract("C03", "DependencyCRF.partition, %s, %s" % ("lengths" if _w else "no lengths", "multi-root" if _m else "single-root"),
                 ["StructDistribution.partition", "DependencyCRF._struct", "DependencyCRF.__init__", "_Struct.sum", "DepTree.logpartition"])(
            (lambda w, m: (lambda E: run(E, w, False, m, True)))(_w, _m))
