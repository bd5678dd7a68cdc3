"""Event conversions: compact structures to part indicators and back."""
from vt.contract import *
from vt.stensor import mkint, pl


def ints(E, name, dims, lo, hi):
    SCHEMAS[name] = lambda args, val: [le(lo, val), le(val, hi)]
    return input_tensor(name, dims, int64)


def lens_of(E, B, N, lens, lo=1):
    if lens:
        return E.lengths("len", B, P(lo), N), lambda b: app("len", b, sort="I")
    return None, lambda b: N


def bit(c):
    return nite(c, P(1), P(0))


def chain_part(seq, ln):
    return lambda b, t, c2, c1: bit(conj(lt(t, ln(b) - 1), eq(seq(b, t + 1), c2), eq(seq(b, t), c1)))


def dep_part(head, ln):
    return lambda b, h, m: bit(conj(lt(m, ln(b)), eq(head(b, m), nite(eq(h, m), P(0), h + 1))))


def chain_to(E, lens):
    B, N, C = E.size("B"), E.size("N", 2), E.size("C")
    x = ints(E, "seq", [B, N], P(0), C - 1)
    L, ln = lens_of(E, B, N, lens)
    d = E.ts.LinearChainCRF(E.tensor("phi", [B, N - 1, C, C]))
    r = d.to_event(x, mkint(C), lengths=L)
    seq = lambda b, n: app("seq", b, n, sort="I")
    E.equals("indicator of the sequence", r, [B, N - 1, C, C], chain_part(seq, ln))
    E.frame()


def dep_to(E, lens):
    B, N = E.size("B"), E.size("N")
    x = input_tensor("head", [B, N], int64)
    L, ln = lens_of(E, B, N, lens)
    # heads of the words inside the length are inside the length
    SCHEMAS["head"] = lambda args, val: [le(0, val), le(val, N), disj(le(ln(args[0]), args[1]), le(val, ln(args[0])))]
    d = E.ts.DependencyCRF(E.tensor("phi", [B, N, N]))
    r = d.to_event(x, None, lengths=L)
    head = lambda b, n: app("head", b, n, sort="I")
    E.equals("indicator of the head sequence", r, [B, N, N], dep_part(head, ln))
    E.frame()


for _l in (False, True):
    _s = "lengths" if _l else "no lengths"
    contract("C12", "linear chain to_event, " + _s, ["LinearChain.to_parts"])(lambda E, l=_l: chain_to(E, l))
    contract("C12", "dependency to_event, " + _s, ["DepTree.to_parts", "unconvert"])(lambda E, l=_l: dep_to(E, l))


def given(dims, f):
    """Tensor argument whose elements are given by the precondition."""
    return mk([(P(d),) for d in dims], lambda idx: f(*[i[0] for i in idx]), int64)


def scatter(B, N, hit, value, default, witness):
    """Invariant of a loop over non-zero rows: cell (b, n) holds its value once some row hitting it was processed."""
    nz = lambda: ST.nonzeros[-1]

    def holds(args, c):
        k, b, n = args
        w = app("row", k, b, n, sort="I")
        i = witness(nz(), b, n)
        return [disj(neg(c), conj(le(0, w), lt(w, k), hit(nz(), w, b, n))), disj(c, neg(conj(le(0, i), lt(i, k), hit(nz(), i, b, n))))]
    SCHEMAS["written"] = holds

    def written(loop, k, b, n):
        if k.const() == 0:
            return FALSE
        if k.const() is not None or same(k - 1, loop.k):
            return disj(written(loop, k - 1, b, n), hit(nz(), k - 1, b, n))
        return bapp("written", k, b, n)

    def tf(loop, dims, o):
        if ST.nonzeros and len(dims) == 2 and same(loop.n, nz().M):
            yield "cells of processed rows", lambda k, fl: nite(written(loop, P(k), *fl), value(*fl), P(default))
    ST.templates.append(tf)


def chain_from(E, lens):
    B, N, C = E.size("B"), E.size("N", 2), E.size("C")
    ints(E, "seq", [B, N], P(0), C - 1)
    L, ln = lens_of(E, B, N, lens, 2)
    seq = lambda b, n: app("seq", b, n, sort="I")
    d = E.ts.LinearChainCRF(E.tensor("phi", [B, N - 1, C, C]))
    edge = given([B, N - 1, C, C], chain_part(seq, ln))
    scatter(B, N, lambda z, i, b, n: conj(eq(z.coord(0, i), b), disj(eq(z.coord(1, i) + 1, n), conj(eq(n, 0), eq(z.coord(1, i), 0)))), seq, 0,
            lambda z, b, n: (lambda t: z.index(b, t, seq(b, t + 1), seq(b, t)))(nite(eq(n, 0), P(0), n - 1)))
    r, extra = d.from_event(edge)
    E.equals("labels inside the length", r, [B, N], lambda b, n: nite(lt(n, ln(b)), seq(b, n), P(0)))
    E.holds("number of classes", eq(pl(extra), C))


def dep_from(E, lens):
    B, N = E.size("B"), E.size("N")
    L, ln = lens_of(E, B, N, lens)
    SCHEMAS["head"] = lambda args, val: [le(0, val), disj(neg(lt(args[1], ln(args[0]))), le(val, ln(args[0]))), ne(val, args[1] + 1)]
    head = lambda b, n: app("head", b, n, sort="I")
    d = E.ts.DependencyCRF(E.tensor("phi", [B, N, N]))
    arcs = given([B, N, N], dep_part(head, ln))
    scatter(B, N, lambda z, i, b, n: conj(eq(z.coord(0, i), b), eq(z.coord(2, i), n)), head, 0,
            lambda z, b, n: z.index(b, nite(eq(head(b, n), 0), n, head(b, n) - 1), n))
    r, extra = d.from_event(arcs)
    E.equals("heads inside the length", r, [B, N], lambda b, n: nite(lt(n, ln(b)), head(b, n), P(0)))


for _l in (False, True):
    _s = "lengths" if _l else "no lengths"
    contract("C12", "linear chain from_event, " + _s, ["LinearChain.from_parts"])(lambda E, l=_l: chain_from(E, l))
    contract("C12", "dependency from_event, " + _s, ["DepTree.from_parts"])(lambda E, l=_l: dep_from(E, l))


# semi-Markov: last(b, n) is the greatest segment boundary below n, nxt(b) the least one above 0
def boundaries(B, N, K, C, ln):
    seq = lambda b, n: app("seq", b, n, sort="I")
    last = lambda b, n: app("last", b, n, sort="I")
    nxt = lambda b: app("nxt", b, sort="I")
    SCHEMAS["seq"] = lambda a, v: [le(-1, v), le(v, C - 1), disj(ne(a[1], 0), le(0, v)), disj(ne(a[1], ln(a[0]) - 1), le(0, v))]
    # widths of the segments fit the part tensor
    SCHEMAS["last"] = lambda a, v: [disj(lt(a[1], 1), conj(le(0, v), lt(v, a[1]), le(0, seq(a[0], v)))),
                                    disj(lt(a[1], 1), le(ln(a[0]), a[1]), lt(seq(a[0], a[1]), 0), lt(a[1] - v, K))]
    SCHEMAS["nxt"] = lambda a, v: [disj(lt(ln(a[0]), 2), conj(le(1, v), lt(v, ln(a[0])), le(0, seq(a[0], v)), eq(last(a[0], v), 0)))]
    return seq, last, nxt


def seg_part(seq, last, ln):
    return lambda b, t, w, c2, c1: bit(conj(le(1, w), lt(t + w, ln(b)), eq(last(b, t + w), t), eq(seq(b, t + w), c2), eq(seq(b, t), c1)))


def seg_to(E, lens):
    B, N, K, C = E.size("B"), E.size("N", 2), E.size("K", 2), E.size("C")
    x = input_tensor("seq", [B, N], int64)
    L, ln = lens_of(E, B, N, lens, 1)
    seq, last, nxt = boundaries(B, N, K, C, ln)
    d = E.ts.SemiMarkovCRF(E.tensor("phi", [B, N - 1, K, C, C]))

    def below(loop, b, n):
        """last(b, n), unfolded once at the end of an iteration."""
        if n.const() == 1:
            return P(0)
        if same(n - 1, loop.pos(loop.k)):
            return nite(le(0, seq(b, n - 1)), n - 1, last(b, n - 1))
        return last(b, n)

    def tf(loop, dims, o):
        if len(dims) == 5 and len(ST.loopstack) >= 1:
            old, cur = o.fn, ST.loopstack[0].cur
            ent = lambda fl: o.get(fl, old)

            def content(k, fl):
                b, t, w, c2, c1 = fl
                done = conj(eq(b, cur), lt(t + w, loop.pos(P(k))), le(1, w), eq(last(b, t + w), t), eq(seq(b, t + w), c2), eq(seq(b, t), c1))
                return nite(done, P(1), ent(fl))
            yield "segments up to the position", content

    def locs(loop, name, v0, v1):
        if len(ST.loopstack) < 1:
            return
        cur = ST.loopstack[0].cur
        if isinstance(v0, (int, SymInt)):
            yield "last boundary", lambda k: mkint(below(loop, cur, loop.pos(P(k))))
        if isinstance(v0, Tensor) and v0.dim() == 0:
            yield "label of the last boundary", lambda k: mk([], lambda idx: seq(cur, below(loop, cur, loop.pos(P(k)))), int64)
    tf.locals = locs
    ST.templates.append(tf)
    r = d.to_event(x, (mkint(C), mkint(K)), lengths=L)
    E.equals("indicator of the segmentation", r, [B, N - 1, K, C, C], seg_part(seq, last, ln))
    E.frame()


def seg_from(E, lens):
    B, N, K, C = E.size("B"), E.size("N", 2), E.size("K", 2), E.size("C")
    L, ln = lens_of(E, B, N, lens, 2)
    seq, last, nxt = boundaries(B, N, K, C, ln)
    d = E.ts.SemiMarkovCRF(E.tensor("phi", [B, N - 1, K, C, C]))
    edge = given([B, N - 1, K, C, C], seg_part(seq, last, ln))
    end = lambda b, n: nite(eq(n, 0), nxt(b), n)
    scatter(B, N, lambda z, i, b, n: conj(eq(z.coord(0, i), b), disj(eq(z.coord(1, i) + z.coord(2, i), n), conj(eq(n, 0), eq(z.coord(1, i), 0)))),
            seq, -1, lambda z, b, n: z.index(b, last(b, end(b, n)), end(b, n) - last(b, end(b, n)), seq(b, end(b, n)), seq(b, last(b, end(b, n)))))
    r, extra = d.from_event(edge)
    E.equals("labels inside the length", r, [B, N], lambda b, n: nite(lt(n, ln(b)), seq(b, n), P(-1)))
    E.holds("number of classes and widths", conj(eq(pl(extra[0]), C), eq(pl(extra[1]), K)))


for _l in (False, True):
    _s = "lengths" if _l else "no lengths"
    contract("C12", "semi-Markov to_event, " + _s, ["SemiMarkov.to_parts"])(lambda E, l=_l: seg_to(E, l))
    contract("C12", "semi-Markov from_event, " + _s, ["SemiMarkov.from_parts"])(lambda E, l=_l: seg_from(E, l))


@contract("C12", "grammar from_event", ["CKY.from_parts"])
def cfg_from(E):
    B, N, NT, TT = E.size("B"), E.size("N", 2), E.size("NT"), E.size("T")
    S = NT + TT
    te = E.tensor("e_term", [B, N, TT])
    ru = E.tensor("e_rule", [B, N, N, NT, S, S])
    ro = E.tensor("e_root", [B, NT])
    d = E.ts.SentCFG((E.tensor("term", [B, N, TT]), E.tensor("rule", [B, NT, S, S]), E.tensor("root", [B, NT])))
    r, (nt, t) = d.from_event((te, ru, ro))

    def spec(b, i, j, A):
        x, y = fresh("x"), fresh("y")
        s = bsum(x.as_atom(), 0, S, bsum(y.as_atom(), 0, S, app("e_rule", b, j - i - 1, i, A, x, y)))
        return nite(conj(lt(i, j), lt(A, NT)), s, nite(conj(eq(i, j), le(NT, A)), app("e_term", b, i, A - NT), P(0)))
    E.equals("span chart", r, [B, N, N, S], spec)
    E.holds("numbers of symbols", conj(eq(pl(nt), NT), eq(pl(t), TT)))
    E.frame()


def spans_of(E, B, N, NT, TT):
    """Spans of a binary tree over the words inside the length: nd(b, i, j) says whether there is a node over words i..j,
    lab its symbol, sp the last word of its left child; no two nodes cross."""
    S = NT + TT
    L, ln = lens_of(E, B, N, True)
    nd = lambda b, i, j: bapp("nd", P(b), P(i), P(j))
    lab = lambda b, i, j: app("lab", P(b), P(i), P(j), sort="I")
    sp = lambda b, i, j: app("sp", P(b), P(i), P(j), sort="I")
    SCHEMAS["nd"] = lambda a, c: [disj(neg(c), conj(le(0, a[1]), le(a[1], a[2]), lt(a[2], ln(a[0]))))]
    SCHEMAS["lab"] = lambda a, v: [le(0, v), lt(v, S), disj(neg(lt(a[1], a[2])), lt(v, NT)), disj(neg(eq(a[1], a[2])), le(NT, v))]
    SCHEMAS["sp"] = lambda a, v: [disj(neg(nd(*a)), le(a[2], a[1]), conj(le(a[1], v), lt(v, a[2]), nd(a[0], a[1], v), nd(a[0], v + 1, a[2])))]
    apart = lambda b, i, j, k, l: disj(neg(nd(b, i, j)), neg(nd(b, k, l)), neg(conj(lt(i, k), le(k, j), lt(j, l))))
    return L, ln, nd, lab, sp, apart


@contract("C12", "grammar from_event of a derivation", ["CKY.from_parts"])
def cfg_from_tree(E):
    B, N, NT, TT = E.size("B"), E.size("N", 2), E.size("NT"), E.size("T")
    S = NT + TT
    L, ln, nd, lab, sp, apart = spans_of(E, B, N, NT, TT)
    te = given([B, N, TT], lambda b, n, t: bit(conj(nd(b, n, n), eq(lab(b, n, n), NT + t))))
    use = lambda b, i, j, A, X, Y: bit(conj(nd(b, i, j), eq(lab(b, i, j), A), eq(lab(b, i, sp(b, i, j)), X), eq(lab(b, sp(b, i, j) + 1, j), Y)))
    ru = given([B, N, N, NT, S, S], lambda b, w, i, A, X, Y: use(b, i, i + w + 1, A, X, Y))
    ro = given([B, NT], lambda b, A: bit(conj(nd(b, 0, ln(b) - 1), eq(lab(b, 0, ln(b) - 1), A))))
    d = E.ts.SentCFG((E.tensor("term", [B, N, TT]), E.tensor("rule", [B, NT, S, S]), E.tensor("root", [B, NT])))
    r, _ = d.from_event((te, ru, ro))
    E.equals("spans of the tree", r, [B, N, N, S], lambda b, i, j, s: bit(conj(nd(b, i, j), eq(lab(b, i, j), s))))


@contract("C12", "grammar to_event", ["CKY.to_parts"], ["torch.nonzero lists every non-zero cell exactly once"], weight=3)
def cfg_to(E):
    B, N, NT, TT = E.size("B"), E.size("N"), E.size("NT"), E.size("T")
    S = NT + TT
    L, ln, nd, lab, sp, apart = spans_of(E, B, N, NT, TT)
    spans = given([B, N, N, S], lambda b, i, j, s: bit(conj(nd(b, i, j), eq(lab(b, i, j), s))))
    rule = lambda b, i, j, s, fl: conj(lt(i, j), eq(s, fl[1]), eq(lab(b, i, sp(b, i, j)), fl[2]), eq(lab(b, sp(b, i, j) + 1, j), fl[3]))
    nz = lambda: ST.nonzeros[-1]

    def cells(fl):
        b, i, j = fl[0], fresh("i"), fresh("j")
        return bsum(i.as_atom(), 0, N, bsum(j.as_atom(), 0, N, bit(conj(nd(b, i, j), rule(b, i, j, lab(b, i, j), fl)))))

    def tf(loop, dims, o):
        if len(dims) != 4:
            return
        if same(loop.n, B):
            yield "rules of the finished trees", lambda k, fl: nite(lt(fl[0], P(k)), cells(fl), P(0))
        elif ST.nonzeros and same(loop.n, nz().M):
            z, old, cur = nz(), o.fn, ST.loopstack[0].cur
            row = lambda t, fl: bit(rule(cur, z.coord(0, t), z.coord(1, t), z.coord(2, t), fl))

            def rows(k, fl):
                if k.const() == 0:
                    return P(0)
                if k.const() is not None or same(k - 1, loop.k):
                    return rows(k - 1, fl) + row(k - 1, fl)
                if k is z.M:
                    return cells((cur,) + tuple(fl[1:]))        # every node has exactly one row
                t = fresh("t")
                return bsum(t.as_atom(), 0, k, row(t, fl))
            yield "rules of the processed nodes", lambda k, fl: o.get(fl, old) + nite(eq(fl[0], cur), rows(P(k), fl), P(0))
    ST.templates.append(tf)

    def search(loop, sk, facts, hit):
        """Instances, at the node whose children are looked for, of what the nodes satisfy / of what no candidate satisfies."""
        z, cur = nz(), ST.loopstack[0].cur
        a = loop.bucket.key.as_atom()
        if a is None or a.kind != "app" or a.args[0][:len(z.name)] != z.name or len(sk) != 2:
            return []
        t = a.args[1][0]
        i, j = z.coord(0, t), z.coord(1, t)
        s = sp(cur, i, j)
        if hit:
            out = []
            for x in sk:
                c, d = z.coord(0, x), z.coord(1, x)
                out += [apart(cur, i, s, c, d), apart(cur, c, d, s + 1, j)]
            return out
        kids = z.index(i, s, lab(cur, i, s)), z.index(s + 1, j, lab(cur, s + 1, j))
        return [neg(subst(conj(*facts), dict(zip([x.as_atom() for x in sk], ks)))) for ks in (kids, kids[::-1])]
    ST.search.append(search)
    d = E.ts.SentCFG((E.tensor("term", [B, N, TT]), E.tensor("rule", [B, NT, S, S]), E.tensor("root", [B, NT])))
    te, ru, ro = d.to_event(spans, (mkint(NT), mkint(TT)), lengths=L)
    E.equals("words keep their symbols", te, [B, N, TT], lambda b, n, t: nite(lt(n, ln(b)), bit(conj(nd(b, n, n), eq(lab(b, n, n), NT + t))), P(0)))
    E.equals("one rule per node", ru, [B, NT, S, S], lambda *fl: cells(fl))
    E.equals("root symbol", ro, [B, NT], lambda b, A: bit(conj(nd(b, 0, ln(b) - 1), eq(lab(b, 0, ln(b) - 1), A))))
    E.frame()


@contract("C12", "span tree conversions", ["_Struct.to_parts", "_Struct.from_parts"])
def tree(E):
    B, N, C = E.size("B"), E.size("N"), E.size("C")
    d = E.ts.TreeCRF(E.tensor("phi", [B, N, N, C]))
    x = E.tensor("e", [B, N, N, C])
    el = lambda b, i, j, c: app("e", b, i, j, c)
    E.equals("to_event keeps the span indicators", d.to_event(x, None), [B, N, N, C], el)
    E.equals("from_event keeps the span indicators", d.from_event(x)[0], [B, N, N, C], el)
    E.frame()
