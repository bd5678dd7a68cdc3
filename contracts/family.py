"""The query layer against the contract of a structure: an arbitrary finite family of part sets per batch element, summed in
any semiring (what C01-C05 establish for the concrete structures)."""
from vt.contract import *
from .algebra import *


def recorded(mode):
    ob("what is differentiated is recorded whatever the ambient gradient mode", mode is True, "computed with gradients switched off",
       status=None if mode is True else "unknown")


class Fam:
    def __init__(self, E, rank, lens=True):
        self.E = E
        self.B = E.size("B")
        self.D = [E.size("e%d" % i) for i in range(rank)]
        SCHEMAS["M"] = lambda args, val: [le(1, val)]
        self.pot = E.tensor("phi", [self.B] + self.D)
        self.lens = E.lengths("len", self.B, P(1), P(var("LMAX"))) if lens else None
        self.calls, self.defs = [], {}
        fam = self

        class Stub(E.mod("torch_struct.helpers")._Struct):
            def logpartition(self, pot, lengths=None, force_grad=False):
                return fam.logpartition(self.semiring, pot, lengths)

        class Dist(E.ts.StructDistribution):
            struct = Stub
        self.Stub, self.Dist = Stub, Dist
        # queries are asked with gradients switched off: what they differentiate must not depend on it
        # (with gradients on when the graph behind the answers is the question)
        ST.gradmode, self.mode = ST.track_det, None
        storch.GRAD_RULES.append(self.recorded)

    def recorded(self, *a):
        recorded(self.mode)

    def M(self, b):
        return app("M", b, sort="I")

    def part(self, b, z, *e):
        """Part e belongs to structure z of element b."""
        return bapp("part", b, z, *e)

    def over(self, f, dims=None):
        """Sum over all parts."""
        vs = [fresh("e") for _ in self.D]
        r = f(*vs)
        for v, d in reversed(list(zip(vs, self.D))):
            r = bsum(v.as_atom(), 0, d, r)
        return r

    def score(self, b, z, at=None):
        at = at or (lambda *e: app("phi", b, *e))
        return self.over(lambda *e: nite(self.part(b, z, *e), at(*e), P(0)))

    def ok_lengths(self, lengths):
        ob("the lengths are handed on", lengths is self.lens, "logpartition called with lengths %r" % (lengths,))

    def logpartition(self, sr, pot, lengths):
        """Contract of logpartition: the semiring sum over the family of the semiring products of the parts."""
        self.ok_lengths(lengths)
        self.mode = ST.gradmode
        name = sr.__name__
        conv = sr.convert(pot)
        self.calls.append((name, pot, conv))
        # the converted potentials are the leaves gradients are taken of
        rd = conv.reader()
        ref = conv.groups
        leaf = "cv%d" % len(self.calls)
        self.defs[leaf] = lambda s, b, *e: rd(tuple(() if not g else (i,) for g, i in zip(ref, (s, b) + e)))
        el = lambda s, b, *e: app(leaf, s, b, *e)
        lt_ = mk(ref, lambda ix: el(*[i[0] if i else P(0) for i in ix]), conv.dtype)
        if not self.E.shape("potentials handed to the %s structure" % name, conv, [P(gsize(ref[0])), self.B] + self.D):
            raise Unsupported("shape")
        S = gsize(ref[0])
        if name == "KMaxSemiring":
            k = S
            f = lambda s, b: kth(s, [self.M(b)], lambda z: self.score(b, z, lambda *e: el(P(0), b, *e)))
        elif name in ALG:
            n, fold, times, _ = ALG[name]
            if times is add:
                one = lambda s, b: (lambda z: (lambda c: self.score(b, z, lambda *e: el(P(c), b, *e))))
            else:
                def one(s, b):
                    def pr(z):
                        def g(c):
                            vs = [fresh("e") for _ in self.D]
                            r = nite(self.part(b, z, *vs), el(P(c), b, *vs), P(1))
                            for v, d in reversed(list(zip(vs, self.D))):
                                r = bprod(v.as_atom(), 0, d, r)
                            return r
                        return g
                    return pr
            comps_ = [lambda b, c=c: fold(one(c, b), self.M(b))(c) for c in range(n)]

            def f(s, b):
                if s.const() is not None:
                    return comps_[s.const()](b)
                r = comps_[-1](b)
                for c in range(n - 2, -1, -1):
                    r = nite(eq(s, c), comps_[c](b), r)
                return r
        else:
            raise Unsupported("semiring %s" % name)
        sg = () if S.const() == 1 else (S,)
        v = mk([sg, (self.B,)], lambda ix: f(ix[0][0] if ix[0] else P(0), ix[1][0]), userfloat)
        return v, VList([lt_])

    def equals(self, name, t, dims, spec):
        if isinstance(t, Tensor):
            t = t.map(lambda e: expand(e, self.defs))
        return self.E.equals(name, t, dims, spec)

    # specification
    def logZ(self, b, at=None):
        return lse_(lambda z: self.score(b, z, at), self.M(b))

    def prob(self, b, z, at=None):
        return nexp(self.score(b, z, at) - self.logZ(b, at))


def grammar(E, lens, ask, semiring, raw=False):
    """A query of a grammar hands potentials, lengths and the right semiring to CKY, and returns its answer."""
    ST.weak = True
    B, N, NT, T = E.size("B"), E.size("N", 2), E.size("NT"), E.size("T")
    Sy = NT + T
    pot = E.tensor("terms", [B, N, T]), E.tensor("rules", [B, NT, Sy, Sy]), E.tensor("roots", [B, NT])
    L = E.lengths("len", B, P(1), N) if lens else None
    k = E.size("k")
    log = []

    def seen(what, sr, p, l):
        ok = getattr(sr, "__name__", "") == semiring
        ob("%s: in the %s" % (what, semiring), ok, repr(sr))
        if ok and semiring == "KMaxSemiring":
            ob("%s: of the k asked for" % what, same(pl(sr.size()), k), "size %r" % (sr.size(),))
        ob("%s: the three potentials are handed on" % what, len(p) == 3 and all(a is b for a, b in zip(p, pot)), "")
        ob("%s: the lengths are handed on" % what, l is L, repr(l))
        log.append(what)

    class Stub(E.mod("torch_struct.cky").CKY):
        def logpartition(self, p, lengths=None, force_grad=False):
            seen("sum", self.semiring, p, lengths)
            S = pl(self.semiring.size())
            return mk([() if S.const() == 1 else (S,), (B,)], lambda ix: app("v", ix[0][0] if ix[0] else P(0), ix[1][0]), userfloat), ()

        def marginals(self, p, lengths=None, _autograd=True, _raw=False):
            seen("marginals", self.semiring, p, lengths)
            ob("marginals: per rank if and only if the k best are asked for", bool(_raw) == raw, "")
            return (mk([(B,), (N,), (T,)], lambda ix: app("m", *[i[0] for i in ix]), userfloat), None, None, None)

    class Dist(E.ts.SentCFG):
        struct = Stub
    d = Dist(pot, L)
    ST.fn = "StructDistribution." + ask
    r = getattr(d, ask)
    r = r(mkint(k)) if callable(r) else r
    if log == ["sum"]:
        comp = {"EntropySemiring": 1}.get(semiring, 0)
        if semiring == "KMaxSemiring":
            E.equals("all components are returned", r, [k, B], lambda j, b: app("v", j, b))
        else:
            E.equals("the value is returned", r, [B], lambda b: app("v", P(comp), b))
    else:
        ob("the marginals are returned", log == ["marginals"] and isinstance(r, tuple) and len(r) == 4, repr(log))
        if log == ["marginals"]:
            E.equals("the terminal part", r[0], [B, N, T], lambda *i: app("m", *i))
    E.frame()


def grammars(prop, *asks):
    for ask, semiring, raw in asks:
        for lens in (False, True):
            contract(prop, "SentCFG.%s%s" % (ask, ", lengths" if lens else ""), ["StructDistribution." + ask, "StructDistribution._struct", "SentCFG.__init__", "_Struct.sum"])(
                lambda E, a=(lens, ask, semiring, raw): grammar(E, *a))
