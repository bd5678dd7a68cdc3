"""Marginals: gradients of the log-partition, arranged as part marginals; argmax and top-k read-outs of the same functions."""
from vt.contract import *
from .family import *

AUTOGRAD = ["torch.autograd.grad returns the derivative of the returned sum with respect to the returned potentials; a maximum or order "
            "statistic is differentiated through the element it selects"]


@contract("C08", "marginals of a structure without re-arrangement: events of rank 3", ["StructDistribution.marginals", "_Struct.marginals",
          "_Struct._arrange_marginals", "StructDistribution._struct"], AUTOGRAD)
def plain(E):
    generic(E, 3, True)


def generic(E, rank, lens):
    F = Fam(E, rank, lens)
    d = F.Dist(F.pot, F.lens)
    m = d.marginals
    F.equals("marginals are the total probability of the structures with the part", m, [F.B] + F.D,
             lambda b, *e: sum_(lambda z: F.prob(b, z) * b2n(F.part(b, z, *e)), F.M(b)))
    E.frame()


for _r in (2, 3, 4):
    for _l in (False, True):
        if (_r, _l) != (3, True):
            contract("C08", "marginals of a structure without re-arrangement: events of rank %d%s" % (_r, ", lengths" if _l else ""), [
                "StructDistribution.marginals", "_Struct.marginals", "_Struct._arrange_marginals"], AUTOGRAD)(
                (lambda r, l: (lambda E: generic(E, r, l)))(_r, _l))


# ---------------------------------------------------------------- dependency trees: root arcs move back to the diagonal

def sr_of(E, name, k=None):
    m = E.mod("torch_struct.semirings.semirings")
    return m.KMaxSemiring(mkint(k)) if name == "KMaxSemiring" else getattr(m, name)


class Leaves:
    """logpartition of a structure whose score is linear in given leaf tensors: contract used by its caller `marginals`."""

    def __init__(self, E, base, sr, build):
        self.E, self.B = E, E.size("B")
        SCHEMAS["M"] = lambda args, val: [le(1, val)]
        me = self

        class Stub(base):
            def logpartition(self, pot, lengths=None, force_grad=False):
                ob("the lengths are handed on", lengths is me.lens, "%r" % (lengths,))
                ob("the potentials are handed on", pot is me.pot, "%r" % (pot,))
                S = pl(self.semiring.size())
                score, out = build(S)
                me.score = score
                nm = self.semiring.__name__
                if nm == "KMaxSemiring":
                    f = lambda s, b: kth(s, [me.M(b)], lambda z: score(b, z))
                elif nm == "LogSemiring":
                    f = lambda s, b: lse_(lambda z: score(b, z), me.M(b))
                elif nm == "MaxSemiring":
                    f = lambda s, b: max_(lambda z: score(b, z), me.M(b))
                else:
                    raise Unsupported(nm)
                v = mk([() if S.const() == 1 else (S,), (me.B,)], lambda ix: f(ix[0][0] if ix[0] else P(0), ix[1][0]), userfloat)
                return v, out
        self.stub = Stub(sr)
        self.lens = object()
        self.pot = object()

    def M(self, b):
        return app("M", b, sort="I")

    def weight(self, sr, b, use, j=None):
        """What the gradient collects: expectation, or the value at the selected structure."""
        z = fresh("z")
        fam = mat([z.as_atom()], [self.M(b)], self.score(b, z))
        if sr == "LogSemiring":
            lz = lse_(lambda q: self.score(b, q), self.M(b))
            return sum_(lambda q: nexp(self.score(b, q) - lz) * use(q), self.M(b))
        return use(P(atom("argmax", fam, sort="I")) if sr == "MaxSemiring" else P(atom("ordix", j, fam, sort="I")))


def grid(dims, f):
    vs = [fresh("e") for _ in dims]
    r = f(*vs)
    for v, d in reversed(list(zip(vs, dims))):
        r = bsum(v.as_atom(), 0, d, r)
    return r


def deptree(E, name, labels):
    N = E.size("N")
    L = [E.size("L")] if labels else []
    k = E.size("k") if name == "KMaxSemiring" else None
    dims = [N + 1, N + 1] + L
    part = lambda b, z, *e: bapp("part", b, z, *e)
    F = None

    def build(S):
        sg = () if S.const() == 1 else (S,)
        t = mk([sg, (F.B,)] + [(d,) for d in dims], lambda ix: app("cv", *[i[0] if i else P(0) for i in ix]), userfloat)
        return (lambda b, z: grid(dims, lambda *e: nite(part(b, z, *e), app("cv", P(0), b, *e), P(0)))), VList([t])
    F = Leaves(E, E.mod("torch_struct.deptree").DepTree, sr_of(E, name, k), build)
    ST.fn = "DepTree._arrange_marginals"

    def use(b, h, c, l):
        return lambda z: nite(eq(h, c), b2n(part(b, z, P(0), c + 1, *l)), b2n(part(b, z, h + 1, c + 1, *l)))
    if name == "KMaxSemiring":
        m = F.stub.marginals(F.pot, F.lens, _raw=True)
        E.equals("marginals, root arcs on the diagonal", m, [k, F.B, N, N] + L, lambda j, b, h, c, *l: F.weight(name, b, use(b, h, c, l), j))
    else:
        m = F.stub.marginals(F.pot, F.lens)
        E.equals("marginals, root arcs on the diagonal", m, [F.B, N, N] + L, lambda b, h, c, *l: F.weight(name, b, use(b, h, c, l)))


for _n, _p in (("LogSemiring", "C08"), ("MaxSemiring", "C09"), ("KMaxSemiring", "C09")):
    for _l in (False, True):
        contract(_p, "DepTree.marginals, %s%s" % (_n, ", labelled" if _l else ""), ["_Struct.marginals", "DepTree._arrange_marginals", "deptree.unconvert"],
                 AUTOGRAD)((lambda n, l: (lambda E: deptree(E, n, l)))(_n, _l))


# ---------------------------------------------------------------- context-free grammars

def cfg(E, name):
    N, NT, T = E.size("N", 2), E.size("NT"), E.size("T")
    k = E.size("k") if name == "KMaxSemiring" else None
    Sy = NT + T
    F = None
    nt = lambda b, z, *e: app("nT", b, z, *e, sort="I")
    nr = lambda b, z, *e: app("nR", b, z, *e, sort="I")
    no = lambda b, z, *e: app("nO", b, z, *e, sort="I")
    ns = lambda b, z, *e: app("nS", b, z, *e, sort="I")

    def build(S):
        sg = () if S.const() == 1 else (S,)
        g = lambda ix: [i[0] if i else P(0) for i in ix]
        lead = [sg, (F.B,)]
        te = mk(lead + [(N,), (T,)], lambda ix: app("te", *g(ix)), userfloat)
        ru = mk(lead + [(), (NT,), (Sy,), (Sy,)], lambda ix: app("ru", *(g(ix)[:2] + g(ix)[3:])), userfloat)
        ro = mk(lead + [(NT,)], lambda ix: app("ro", *g(ix)), userfloat)
        spans = SymList(N - 1, lambda w: mk(lead + [(N - w - 1,), (NT,)], lambda ix: app("sp", w, *g(ix)), userfloat))

        def score(b, z):
            w = fresh("w")
            sp = bsum(w.as_atom(), 0, N - 1, grid([N - w - 1, NT], lambda i, A: ns(b, z, w, i, A) * app("sp", w, P(0), b, i, A)))
            return grid([N, T], lambda n, t: nt(b, z, n, t) * app("te", P(0), b, n, t)) \
                + grid([NT, Sy, Sy], lambda A, B, C: nr(b, z, A, B, C) * app("ru", P(0), b, A, B, C)) \
                + grid([NT], lambda A: no(b, z, A) * app("ro", P(0), b, A)) + sp
        return score, (te, ru, ro, spans)
    F = Leaves(E, E.mod("torch_struct.cky").CKY, sr_of(E, name, k), build)
    terms, rules, roots = E.tensor("terms", [F.B, N, T]), E.tensor("rules", [F.B, NT, Sy, Sy]), E.tensor("roots", [F.B, NT])
    F.pot = (terms, rules, roots)
    ST.fn = "CKY.marginals"
    W = lambda b, use, j=None: F.weight(name, b, use, j)
    span = lambda b, w, i, A, j=None: nite(conj(lt(w, N - 1), lt(i, N - w - 1)), W(b, lambda z: ns(b, z, w, i, A), j), P(0))
    if name == "KMaxSemiring":
        r = F.stub.marginals(F.pot, F.lens, _raw=True)
        E.equals("span indicators of the k best derivations", r[3], [k, F.B, N, N, NT], lambda j, b, w, i, A: span(b, w, i, A, j))
        j = fresh("j")
        tot = lambda b, use: bsum(j.as_atom(), 0, k, W(b, use, j))
        E.equals("terminal uses in the k best derivations together", r[0], [F.B, N, T], lambda b, n, t: tot(b, lambda z: nt(b, z, n, t)))
        E.equals("rule uses in the k best derivations together", r[1], [F.B, NT, Sy, Sy], lambda b, A, B, C: tot(b, lambda z: nr(b, z, A, B, C)))
        E.equals("root uses in the k best derivations together", r[2], [F.B, NT], lambda b, A: tot(b, lambda z: no(b, z, A)))
    else:
        r = F.stub.marginals(F.pot, F.lens)
        E.equals("terminal marginals", r[0], [F.B, N, T], lambda b, n, t: W(b, lambda z: nt(b, z, n, t)))
        E.equals("rule marginals", r[1], [F.B, NT, Sy, Sy], lambda b, A, B, C: W(b, lambda z: nr(b, z, A, B, C)))
        E.equals("root marginals", r[2], [F.B, NT], lambda b, A: W(b, lambda z: no(b, z, A)))
        E.equals("span marginals", r[3], [F.B, N, N, NT], lambda b, w, i, A: span(b, w, i, A))
    E.frame()


for _n, _p in (("LogSemiring", "C08"), ("MaxSemiring", "C09"), ("KMaxSemiring", "C09")):
    contract(_p, "CKY.marginals, %s" % _n, ["CKY.marginals"], AUTOGRAD)((lambda n: (lambda E: cfg(E, n)))(_n))


# The sums keep the autograd graph: the result, with every element read through detach()/.data or computed under no_grad marked,
# is still the specified function of the unmarked potentials (an element written back to itself through .data keeps its graph).

def graph(run, *a):
    def f(E):
        ST.track_det = True
        run(E, *a)
    return f


from . import c01, c02, c03, c04, c05  # noqa: E402
for _n, _f in (("LinearChain", graph(c01.run, True)), ("SemiMarkov", graph(c02.run, True)), ("CKY_CRF", graph(c04.run, True)),
               ("CKY", graph(c05.run, True)), ("DepTree, multi-root", graph(c03.run, True, False, True)),
               ("DepTree, single-root", graph(c03.run, True, False, False)), ("DepTree, labelled", graph(c03.run, True, True, True))):
    contract("C08", "gradient graph of logpartition, %s" % _n, [_n.split(",")[0] + ".logpartition"],
             ["an in-place write through .data changes the value and leaves the recorded graph"], weight=9 if "Dep" in _n else 2)(_f)

grammars("C08", ("marginals", "LogSemiring", False))
