"""Greedy and beam search."""
from vt.contract import *
from vt.terms import idiv, imod
from .lm import Model
from .family import recorded
from .c16 import setup, logsoftmax


class Beam:
    """The search as recursive functions of the time step t, the beam position q and the batch element b:
    V score, X last token, H model state of the q-th best prefix of length t."""

    def __init__(self, E, nstate, norm, greedy, gumbel=False):
        self.B, self.C, self.N, _, self.start, self.M = setup(E, nstate)
        self.norm, self.greedy, self.nstate, self.gumbel = norm, greedy, nstate, gumbel
        self.K = P(1) if greedy else E.size("K", 2)
        U = prover.UNFOLD
        U["V"] = lambda t, q, b: nite(eq(t, 0), nite(eq(q, 0), P(0), P(-100000)), self.best(t - 1, q, b))
        U["X"] = lambda t, q, b: nite(eq(t, 0), self.start, self.W(t - 1, q, b))
        for j in range(nstate):
            U["H%d" % j] = lambda t, q, b, *i, j=j: nite(eq(t, 0), app("h%d" % j, b, *i), self.after(t - 1, q, b, j, i))
        U["P"] = lambda t, k, b: nite(le(self.N, t), k, self.A(t, self.P(t + 1, k, b), b))
        SCHEMAS["P"] = lambda a, v: [le(0, v), lt(v, self.K)]

    V = staticmethod(lambda t, q, b: app("V", t, q, b))
    X = staticmethod(lambda t, q, b: app("X", t, q, b, sort="I"))

    def P(self, t, k, b):
        """Beam position at step t of the prefix that the k-th final path extends."""
        return P(0) if self.greedy else app("P", t, k, b, sort="I")

    def hs(self, t, q, b):
        return [(lambda *i, j=j: app("H%d" % j, t, q, b, *i)) for j in range(self.nstate)]

    def score(self, t, q, b, c):
        tok = lambda u: self.X(t, q, b)
        if self.gumbel:
            one = lambda c: self.M.logit(c, 1, tok, self.hs(t, q, b)) + app("gumbel!0", t, q, b, c)
            x = fresh("x")
            return one(c) - lse(x.as_atom(), 0, self.C, one(x)) if self.norm else one(c)
        if self.norm:
            return logsoftmax(self.M, self.C, c, 1, tok, self.hs(t, q, b))
        return self.M.logit(c, 1, tok, self.hs(t, q, b))

    def ex(self, t, q, b, c):
        """Score of the extension of prefix q by token c."""
        return self.V(t, q, b) + self.score(t, q, b, c)

    def fam(self, t, b):
        c, q = fresh("c"), fresh("q")
        if self.greedy:
            with under(le(0, c), lt(c, self.C)):
                return mat([c.as_atom()], [self.C], self.ex(t, P(0), b, c))
        with under(le(0, c), lt(c, self.C), le(0, q), lt(q, self.K)):
            return mat([c.as_atom(), q.as_atom()], [self.C, self.K], self.ex(t, q, b, c))

    def best(self, t, q, b):
        if self.greedy:
            c = fresh("c")
            with under(le(0, c), lt(c, self.C)):
                return bmax(c.as_atom(), 0, self.C, self.ex(t, P(0), b, c))
        return P(atom("ord", P(q), self.fam(t, b)))

    def O(self, t, j, b):
        return P(atom("ordix", P(j), self.fam(t, b), sort="I"))

    def A(self, t, j, b):
        """Which prefix the j-th best extension extends."""
        return P(0) if self.greedy else imod(self.O(t, j, b), self.K)

    def W(self, t, j, b):
        """The token it is extended by."""
        return P(atom("argmax", self.fam(t, b), sort="I")) if self.greedy else idiv(self.O(t, j, b), self.K)

    def after(self, t, q, b, j, i):
        a = self.A(t, q, b)
        return self.M.next(j, i, 1, lambda u: self.X(t, a, b), self.hs(t, a, b))

    # -- the loop
    def rows(self):
        return (self.B,) if self.greedy else (self.K, self.B)

    def pos(self, r):
        return (P(0), r[0]) if self.greedy else tuple(r)

    def template(self):
        kg = () if self.greedy else (self.K,)
        qb = lambda ix: (ix[0][0] if ix[0] else P(0), ix[1][0])

        def tf(loop, dims, st):
            return []

        def loc(loop, name, v0, v1):
            if isinstance(v0, Tensor) and v0.dim() == 2:
                if v0.dtype.kind == "i":
                    yield "tokens", lambda k: mk([kg, (self.B,)], lambda ix: self.X(loop.pos(k), *qb(ix)), int64)
                else:
                    yield "beam", lambda k: mk([kg, (self.B,)], lambda ix: self.V(loop.pos(k), *qb(ix)), userfloat)
            if isinstance(v0, tuple) and len(v0) == self.nstate:
                yield "state", lambda k: tuple(
                    mk([self.rows()] + [(n,) for n in d], lambda ix, j=j: app("H%d" % j, loop.pos(k), *self.pos(ix[0]), *[i[0] for i in ix[1:]]), userfloat)
                    for j, d in enumerate(self.M.D))
        tf.locals = loc
        return tf

    # -- back pointers: contract of autograd on the list of extension scores
    def sel(self, t, j, b, q, c):
        """The j-th best extension at step t extends prefix q by token c: derivative of its score by the extension score."""
        return conj(eq(self.A(t, j, b), q), eq(self.W(t, j, b), c))

    def grad(self, outputs, inputs, go):
        if not isinstance(outputs, Tensor) or go is not None:
            return None
        recorded(self.M.mode)
        k = ST.loopstack[-1].cur if ST.loopstack else P(0)
        b = fresh("b")
        with under(le(0, b), lt(b, self.B)):
            want = bsum(b.as_atom(), 0, self.B, self.V(self.N, k, b))
        prove("the differentiated sum is the total of the k-th final scores", outputs.elem(((),) * outputs.dim()), want)
        n, at = length(inputs), (lambda t: inputs[mkint(t)])
        ob("one extension table per step", same(n, self.N), "%r tables" % (n,))
        t, q, c = fresh("t"), fresh("q"), fresh("c")
        kg = () if self.greedy else (self.K,)
        with under(le(0, t), lt(t, self.N)):
            x = at(t)
            self.E.equals("table t holds the scores of the extensions of the prefixes", x, [self.K, self.B, self.C], lambda q, b, c: self.ex(t, q, b, c))

        def G(t, q, b, c):
            return b2n(self.sel(t, self.P(t + 1, k, b), b, q, c))
        j = fresh("j")
        with under(le(0, t), lt(t, self.N), le(0, b), lt(b, self.B), le(0, c), lt(c, self.C), le(0, q), lt(q, self.K), le(0, j), lt(j, self.K),
                   le(0, k), lt(k, self.K)) as cx:
            y = fresh("y")
            inner = bsum(y.as_atom(), 0, self.C, G(t + 1, j, b, y))
            if not self.greedy:
                prove("back pointers: the k-th final path ends at position k", self.P(self.N, k, b), k, cx)
            nxt = self.A(t + 1, self.P(t + 2, k, b), b)
            prove("back pointers: the prefix of the extension", self.P(t + 1, k, b), nxt, cx.plus(lt(t + 1, self.N)))
            prove("back pointers: weight of prefix j at step t+1", inner, b2n(eq(nxt, j)), cx.plus(lt(t + 1, self.N)))
            z = fresh("z")
            prove("back pointers: one step", bsum(z.as_atom(), 0, self.K, b2n(eq(self.P(t + 1, k, b), z)) * b2n(self.sel(t, z, b, q, c))), G(t, q, b, c), cx)
        return SymList(self.N, lambda t: mk([kg, (self.B,), (self.C,)], lambda ix: G(t, ix[0][0] if ix[0] else P(0), ix[1][0], ix[2][0]), userfloat))


def length(xs):
    return xs.n if getattr(xs, "sym", True) is not None and hasattr(xs, "n") else P(len(xs))


def search(E, nstate, norm, greedy, gumbel=False, scores=False):
    S = Beam(E, nstate, norm, greedy, gumbel)
    # where the noise of a score is taken from is the code's choice: another choice is not a violation
    ST.weak = gumbel
    S.E = E
    ST.fn = "Autoregressive._beam_search"
    d = E.ts.Autoregressive(S.M, S.M.init, mkint(S.C), mkint(S.N), normalize=norm, start_class=mkint(S.start))
    ST.templates = [S.template()]
    storch.GRAD_RULES.append(S.grad)
    ST.gradmode = False
    tok = lambda k, b, t, c: b2n(eq(S.W(t, S.P(t + 1, k, b), b), c))
    if greedy:
        path, v, lg = d.greedy_max()
        E.equals("greedy path: best next token given its own prefix", path, [S.B, S.N, S.C], lambda b, t, c: tok(P(0), b, t, c))
        E.equals("greedy score: total score of the path", v, [S.B], lambda b: S.V(S.N, P(0), b))
        E.equals("logits along the path", lg, [S.B, S.N, S.C], lambda b, t, c: S.score(t, P(0), b, c))
    elif scores:
        E.equals("scores of the K best prefixes", d._beam_max(mkint(S.K)), [S.K, S.B], lambda k, b: S.V(S.N, k, b))
    else:
        path = d.sample_without_replacement((mkint(S.K),)) if gumbel else d.beam_topk(mkint(S.K))
        E.equals("paths: the tokens along the back pointers of the k-th best final prefix", path, [S.K, S.B, S.N, S.C], tok)
    if gumbel:
        ok = len(ST.rng) == 1 and ST.rng[0][1:] == ("gumbel", 1)
        ob("every score of every step has its own noise", ok, "%r" % (ST.rng,))
    E.frame()


def tempmax(E):
    """Largest score, no reordering, and a soft token in place of the best one."""
    S, B, C = E.size("S"), E.size("B"), E.size("C")
    al, xs = E.tensor("alpha", []), E.tensor("xs", [S, B, C])
    ST.fn = "TempMax.sparse_sum"
    m, (pos, tok) = E.mod("torch_struct.semirings.semirings").TempMax(al).sparse_sum(xs)
    c = fresh("c")
    sc = lambda s, b, c: app("alpha") * app("xs", s, b, c)
    E.equals("largest score", m, [S, B], lambda s, b: bmax(c.as_atom(), 0, C, app("xs", s, b, c)))
    E.equals("position zero", pos, [S, B], lambda s, b: P(0))
    E.equals("soft token", tok, [S, B, C], lambda s, b, k: nexp(sc(s, b, k)) * recip(bsum(c.as_atom(), 0, C, nexp(sc(s, b, c)))))
    E.frame()


class Temp:
    """The soft greedy search as recursive functions of the step t: V total, X(t, b, c) weight of token c fed at step t > 0, H state."""

    def __init__(self, E, nstate, norm):
        self.B, self.C, self.N, _, self.start, self.M = setup(E, nstate)
        self.M.soft = True
        self.norm, self.nstate, self.E = norm, nstate, E
        U = prover.UNFOLD
        U["V"] = lambda t, b: nite(eq(t, 0), P(0), self.best(t - 1, b))
        U["X"] = lambda t, b, c: self.token(t - 1, b, c)
        for j in range(nstate):
            U["H%d" % j] = lambda t, b, *i, j=j: nite(eq(t, 0), app("h%d" % j, b, *i), self.after(t - 1, b, j, i))

    V = staticmethod(lambda t, b: app("V", t, b))
    X = staticmethod(lambda t, b, c: app("X", t, b, c))

    def hs(self, t, b):
        return [(lambda *i, j=j: app("H%d" % j, t, b, *i)) for j in range(self.nstate)]

    def raw(self, t, b, c):
        s = nite(eq(t, 0), self.M.logit(c, 1, lambda u: self.start, self.hs(t, b)), self.M.logit2(c, 1, lambda u, k: self.X(t, b, k), self.hs(t, b)))
        return s + nite(eq(app("alpha"), 0), P(0), app("gumbel!0", t, b, c))

    def score(self, t, b, c):
        if not self.norm:
            return self.raw(t, b, c)
        x = fresh("x")
        return self.raw(t, b, c) - lse(x.as_atom(), 0, self.C, self.raw(t, b, x))

    def best(self, t, b):
        c = fresh("c")
        with under(le(0, c), lt(c, self.C)):
            return bmax(c.as_atom(), 0, self.C, self.V(t, b) + self.score(t, b, c))

    def token(self, t, b, c):
        x = fresh("x")
        w = lambda k: nexp(app("alpha") * (self.V(t, b) + self.score(t, b, k)))
        return w(c) * recip(bsum(x.as_atom(), 0, self.C, w(x)))

    def after(self, t, b, j, i):
        return nite(eq(t, 0), self.M.next(j, i, 1, lambda u: self.start, self.hs(t, b)),
                    self.M.next2(j, i, 1, lambda u, k: self.X(t, b, k), self.hs(t, b)))

    def template(self):
        def tf(loop, dims, st):
            return []

        def loc(loop, name, v0, v1):
            if isinstance(v0, Tensor) and v0.dim() == 2 and v0.dtype.kind == "f":
                yield "beam", lambda k: mk([(), (self.B,)], lambda ix: self.V(loop.pos(k), ix[1][0]), userfloat)
            if isinstance(v0, Tensor) and v0.dim() == 3:
                yield "tokens", lambda k: mk([(), (self.B,), (self.C,)], lambda ix: self.X(loop.pos(k), ix[1][0], ix[2][0]), userfloat)
            if isinstance(v0, tuple) and len(v0) == self.nstate:
                yield "state", lambda k: tuple(
                    mk([(self.B,)] + [(n,) for n in d], lambda ix, j=j: app("H%d" % j, loop.pos(k), *[i[0] for i in ix]), userfloat)
                    for j, d in enumerate(self.M.D))
        tf.locals = loc
        return tf

    def grad(self, outputs, inputs, go):
        recorded(self.M.mode)
        return SymList(self.N, lambda t: mk([(), (self.B,), (self.C,)], lambda ix: app("slope", t, ix[1][0], ix[2][0]), userfloat))


def soft(E, nstate, norm):
    S = Temp(E, nstate, norm)
    ST.weak = True
    ST.fn = "Autoregressive._beam_search"
    al = E.tensor("alpha", [])
    d = E.ts.Autoregressive(S.M, S.M.init, mkint(S.C), mkint(S.N), normalize=norm, start_class=mkint(S.start))
    ST.templates = [S.template()]
    storch.GRAD_RULES.append(S.grad)
    ST.gradmode = False
    path, v, lg = d.greedy_tempmax(al)
    E.shape("path", path, [S.B, S.N, S.C])
    E.equals("total of the best scores", v, [S.B], lambda b: S.V(S.N, b))
    E.equals("scores along the soft path", lg, [S.B, S.N, S.C], lambda b, t, c: S.score(t, b, c))
    E.frame()


NOTE = ["the model is an arbitrary function honouring the forward contract: rows independent, logits at a position depend on the row's tokens "
        "up to it and on the row's state",
        "torch.topk returns the k largest elements in order with their positions, torch.max the largest with a position",
        "torch.autograd.grad differentiates an order statistic through the element it selects; the tables collected are the ones the next "
        "scores are computed from"]
FN = ["Autoregressive._beam_search", "Autoregressive.__init__", "autoregressive.wrap", "autoregressive.unwrap"]
for _n in (1, 2):
    for _z in (False, True):
        _t = "%s, %d state tensors" % ("normalised" if _z else "unnormalised", _n)
        contract("C17", "greedy_max, " + _t, ["Autoregressive.greedy_max", "MaxSemiring.sparse_sum"] + FN, NOTE)(
            (lambda n, z: (lambda E: search(E, n, z, True)))(_n, _z))
        contract("C17", "beam_topk, " + _t, ["Autoregressive.beam_topk", "KMaxSemiring.sparse_sum"] + FN, NOTE)(
            (lambda n, z: (lambda E: search(E, n, z, False)))(_n, _z))
        contract("C17", "sample_without_replacement, " + _t, ["Autoregressive.sample_without_replacement", "KMaxSemiring.sparse_sum"] + FN,
                 NOTE + ["torch.distributions.Gumbel(0, 1) draws independent standard Gumbel noise"])(
            (lambda n, z: (lambda E: search(E, n, z, False, True)))(_n, _z))
contract("C17", "_beam_max", ["Autoregressive._beam_max", "KMaxSemiring.sparse_sum"] + FN, NOTE)(lambda E: search(E, 1, True, False, scores=True))
contract("C17", "TempMax.sparse_sum", ["TempMax.sparse_sum"])(tempmax)
for _n in (1, 2):
    for _z in (False, True):
        contract("C17", "greedy_tempmax, %s, %d state tensors" % ("normalised" if _z else "unnormalised", _n),
                 ["Autoregressive.greedy_tempmax", "TempMax.sparse_sum"] + FN,
                 [NOTE[0] + "; given a distribution over tokens, of that distribution"])(lambda E, n=_n, z=_z: soft(E, n, z))
