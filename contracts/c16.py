"""Autoregressive log_prob and sampling."""
from vt.contract import *
from .lm import Model


def setup(E, nstate):
    B, C, N, S = E.size("B"), E.size("C", 2), E.size("N"), E.size("S")
    start = E.size("start", 0)
    assume(lt(start, C))
    return B, C, N, S, start, Model(E, B, C, start, nstate)


def logsoftmax(M, C, c, n, tok, hs):
    x = fresh("x")
    return M.logit(c, n, tok, hs) - lse(x.as_atom(), 0, C, M.logit(x, n, tok, hs))


def logprob(E, nstate, sparse, norm):
    B, C, N, S, start, M = setup(E, nstate)
    ST.fn = "Autoregressive.log_prob"
    d = E.ts.Autoregressive(M, M.init, mkint(C), mkint(N), normalize=norm, start_class=mkint(start))
    tok = lambda s, b, t: app("tok", s, b, t, sort="I")
    SCHEMAS["tok"] = lambda a, v: [le(0, v), lt(v, C)]
    if sparse:
        value = mk([(S,), (B,), (N,)], lambda ix: tok(ix[0][0], ix[1][0], ix[2][0]), int64)
    else:
        value = mk([(S,), (B,), (N,), (C,)], lambda ix: b2n(eq(tok(ix[0][0], ix[1][0], ix[2][0]), ix[3][0])), userfloat)
    ST.inputs["value"] = (value, value.st.fn, list(value.st.dims))
    v = d.log_prob(value, sparse=True) if sparse else d.log_prob(value)

    def spec(s, b):
        pre = lambda u: nite(eq(u, 0), start, tok(s, b, u - 1))
        hs = [(lambda *i, j=j: app("h%d" % j, b, *i)) for j in range(nstate)]
        t = fresh("t")
        f = (lambda c, n: logsoftmax(M, C, c, n, pre, hs)) if norm else (lambda c, n: M.logit(c, n, pre, hs))
        with under(le(0, t), lt(t, N)):
            return bsum(t.as_atom(), 0, N, f(tok(s, b, t), t + 1))
    E.equals("log_prob is the sum of the model's scores of the chosen tokens given their prefix", v, [S, B], spec)
    E.frame()


def sampling(E, nstate):
    B, C, N, S, start, M = setup(E, nstate)
    ST.fn = "Autoregressive.sample"
    d = E.ts.Autoregressive(M, M.init, mkint(C), mkint(N), start_class=mkint(start))
    X = lambda k, s, b: app("X", k, s, b, sort="I")
    H = lambda j, k, s, b, *i: app("H%d" % j, k, s, b, *i)
    hs = lambda k, s, b: [(lambda *i, j=j: H(j, k, s, b, *i)) for j in range(nstate)]

    def step(k, s, b):
        """Token k+1: drawn from the model's distribution after token k in the state reached by then."""
        c = fresh("c")
        one = lambda u: X(k, s, b)
        with under(le(0, c), lt(c, C)):
            p = mat([c.as_atom()], [C], nexp(logsoftmax(M, C, c, 1, one, hs(k, s, b))))
        return P(atom("cat", app("noise!0", k, s, b), p, sort="I"))
    prover.UNFOLD["X"] = lambda k, s, b: nite(eq(k, 0), start, step(k - 1, s, b))
    for j in range(nstate):
        prover.UNFOLD["H%d" % j] = lambda k, s, b, *i, j=j: nite(eq(k, 0), app("h%d" % j, b, *i),
                                                                M.next(j, i, 1, lambda u: X(k - 1, s, b), hs(k - 1, s, b)))
    ST.templates = [template(S, B, M, X, H)]
    v = d.sample((mkint(S),))
    E.equals("token t is drawn given the tokens drawn before it and the state they lead to", v, [S, B, N, C],
             lambda s, b, t, c: b2n(eq(step(t, s, b), c)))
    ob("one draw per time step", len(ST.rng) == 1 and ST.rng[0][2] == 1, "%r" % (ST.rng,), status=None if len(ST.rng) == 1 and ST.rng[0][2] == 1 else "unknown")
    E.frame()


def template(S, B, M, X, H):
    def tf(loop, dims, st):
        return []

    def loc(loop, name, v0, v1):
        if isinstance(v0, Tensor) and v0.dim() == 1:
            yield "tokens", lambda k: mk([(S, B)], lambda ix: X(k, *ix[0]), int64)
        if isinstance(v0, tuple) and len(v0) == len(M.D):
            yield "state", lambda k: tuple(mk([(S, B)] + [(n,) for n in d], lambda ix, j=j: H(j, k, *ix[0], *[i[0] for i in ix[1:]]), userfloat)
                                           for j, d in enumerate(M.D))
    tf.locals = loc
    return tf


NOTE = ["the model is an arbitrary function honouring the forward contract: rows independent, logits at a position depend on the row's tokens "
        "up to it and on the row's state"]
for _n in (1, 2):
    for _s in (False, True):
        for _z in (False, True):
            contract("C16", "log_prob, %s values, %s, %d state tensors" % ("sparse" if _s else "one-hot", "normalised" if _z else "unnormalised", _n),
                     ["Autoregressive.log_prob", "Autoregressive.__init__", "autoregressive.wrap", "autoregressive.unwrap"], NOTE)(
                (lambda n, s, z: (lambda E: logprob(E, n, s, z)))(_n, _s, _z))
    contract("C16", "sample, %d state tensors" % _n, ["Autoregressive.sample", "Autoregressive.__init__", "autoregressive.wrap", "autoregressive.unwrap"],
             NOTE + ["torch.distributions.Categorical draws class c with its probability, independently for every element drawn"])(
        (lambda n: (lambda E: sampling(E, n)))(_n))
