"""An arbitrary autoregressive model honouring the forward contract: rows are independent, the logits at a position are a function of
the row's tokens up to that position and of the row's state; the new state is a function of the row's tokens and state."""
from vt.contract import *


class Model:
    soft = False

    def __init__(self, E, B, C, start, nstate):
        self.E, self.B, self.C, self.start = E, B, C, start
        self.D = [[E.size("d%d%d" % (j, i)) for i in range(j + 1)] for j in range(nstate)]
        self.init = tuple(E.tensor("h%d" % j, [B] + d) for j, d in enumerate(self.D))
        self.calls = 0

    # specification side: state rows as functions of their own indices
    def row(self, hs):
        """hs[j](*d): element of the j-th state tensor of one row."""
        out = []
        for d, h in zip(self.D, hs):
            vs = [fresh("d") for _ in d]
            with under(*[q for v, n in zip(vs, d) for q in (le(0, v), lt(v, n))]):
                out.append(mat([v.as_atom() for v in vs], d, h(*vs)))
        return out

    def toks(self, n, f):
        u = fresh("u")
        with under(le(0, u), lt(u, n)):
            return mat([u.as_atom()], [P(n)], f(u))

    def logit(self, c, n, tok, hs):
        """Score of class c after n tokens tok(0..n-1) from state hs."""
        return P(atom("lm", P(c), self.toks(n, tok), *self.row(hs)))

    def next(self, j, d, n, tok, hs):
        return P(atom("upd", P(j), tuple(map(P, d)), self.toks(n, tok), *self.row(hs)))

    # the same for distributions over tokens in place of tokens
    def toks2(self, n, f):
        u, c = fresh("u"), fresh("c")
        with under(le(0, u), lt(u, n), le(0, c), lt(c, self.C)):
            return mat([u.as_atom(), c.as_atom()], [P(n), self.C], f(u, c))

    def logit2(self, c, n, tok, hs):
        return P(atom("lm2", P(c), self.toks2(n, tok), *self.row(hs)))

    def next2(self, j, d, n, tok, hs):
        return P(atom("upd2", P(j), tuple(map(P, d)), self.toks2(n, tok), *self.row(hs)))

    def __call__(self, tokens, state=None):
        self.calls += 1
        self.mode = ST.gradmode
        soft = self.soft and isinstance(tokens, Tensor) and tokens.dim() == 3 and tokens.dtype.kind == "f" and same(gsize(tokens.groups[2]), self.C)
        if not soft and (not isinstance(tokens, Tensor) or tokens.dim() != 2 or tokens.dtype.kind != "i"):
            raise ShadowError("the model takes an integer matrix of tokens")
        if not isinstance(state, tuple) or len(state) != len(self.D):
            raise ShadowError("the model takes a tuple of %d states" % len(self.D))
        rows = tokens.groups[0]
        rt = tokens.reader()
        rs = []
        for j, (s, d) in enumerate(zip(state, self.D)):
            if s.dim() != len(d) + 1:
                raise ShadowError("state of rank %d" % s.dim())
            if not same(gsize(s.groups[0]), gsize(rows)):
                raise ShadowError("state has %r rows, tokens have %r" % (gsize(s.groups[0]), gsize(rows)))
            for g, n in zip(s.groups[1:], d):
                if not same(gsize(g), n):
                    raise ShadowError("state size %r" % (g,))
            ref = [rows] + [(n,) for n in d]
            rs.append(bto(s, ref))
        m = gsize(tokens.groups[1])
        one = not tokens.groups[1]
        at = lambda r: (lambda u, *c: rt((r, () if one else (u,)) + tuple((i,) for i in c)))
        logit, after = (self.logit2, self.next2) if soft else (self.logit, self.next)
        hs = lambda r: [(lambda *d, f=f: f((r,) + tuple((x,) for x in d))) for f in rs]
        logits = mk([rows, tokens.groups[1], (self.C,)],
                    lambda ix: logit(ix[2][0], (ix[1][0] if ix[1] else P(0)) + 1, at(ix[0]), hs(ix[0])), userfloat)
        new = tuple(mk([rows] + [(n,) for n in d], lambda ix, j=j: after(j, [i[0] for i in ix[1:]], m, at(ix[0]), hs(ix[0])), userfloat)
                    for j, d in enumerate(self.D))
        return logits, new
