"""log_prob, partition and count."""
from vt.contract import *
from .family import *

FN = ["StructDistribution.log_prob", "StructDistribution.partition", "StructDistribution.count", "StructDistribution._struct",
      "StructDistribution.__init__", "_Struct.score", "_Struct.sum"]


def queries(E, rank, lens, lead):
    F = Fam(E, rank, lens)
    d = F.Dist(F.pot, F.lens)
    B = F.B
    F.equals("partition is the log of the sum of exponentiated scores", d.partition, [B], lambda b: F.logZ(b))
    Ns = [E.size("n%d" % i) for i in range(lead)]
    val = E.tensor("ev", Ns + [B] + F.D)
    F.equals("log_prob of events with %d sample axes" % lead, d.log_prob(val), Ns + [B],
             lambda *i: F.over(lambda *e: app("phi", i[-1], *e) * app("ev", *(i + e))) - F.logZ(i[-1]))
    # an event that is the indicator of structure z of element b has log-probability log p(z)
    z = E.tensor("zz", Ns + [B], int64)
    ind = lambda i: app("zz", *i, sort="I")
    ev = mk([(n,) for n in Ns + [B] + F.D], lambda ix: b2n(F.part(ix[lead][0], ind([k[0] for k in ix[:lead + 1]]), *[k[0] for k in ix[lead + 1:]])), int64)
    F.equals("log_prob of structure indicators", d.log_prob(ev), Ns + [B], lambda *i: F.score(i[-1], ind(i)) - F.logZ(i[-1]))
    if lead == 0:
        # potentials some of which are minus infinity
        ban = lambda b, *e: bapp("ban", b, *e)
        pot = mk([(n,) for n in [B] + F.D], lambda ix: nite(ban(*[k[0] for k in ix]), NINF, app("phi", *[k[0] for k in ix])), userfloat)
        free = lambda b, z: forall(F, lambda *e: disj(neg(F.part(b, z, *e)), neg(ban(b, *e))))
        F.equals("count is the number of structures without a forbidden part", F.Dist(pot, F.lens).count, [B],
                 lambda b: sum_(lambda z: b2n(free(b, z)), F.M(b)))
    E.frame()


def forall(F, f):
    vs = [fresh("e") for _ in F.D]
    r = f(*vs)
    for v, d in reversed(list(zip(vs, F.D))):
        r = ball(v.as_atom(), P(0), d, r)
    return r


for _r in (2, 3, 4):
    for _l in (False, True):
        for _n in (0, 1, 2):
            contract("C20", "log_prob, partition, count: events of rank %d, %d sample axes%s" % (_r, _n, ", lengths" if _l else ""), FN)(
                (lambda r, l, n: (lambda E: queries(E, r, l, n)))(_r, _l, _n))


@contract("C20", "CKY.score: potentials of the uses", ["CKY.score"])
def _(E):
    B, N, T, NT = E.size("B"), E.size("N"), E.size("T"), E.size("NT")
    S = NT + T
    dims = [[N, T], [NT, S, S], [NT]]
    pots = tuple(E.tensor("phi%d" % i, [B] + d) for i, d in enumerate(dims))
    uses = tuple(E.tensor("use%d" % i, [B] + d) for i, d in enumerate(dims))

    def want(b):
        r = P(0)
        for i, d in enumerate(dims):
            vs = [fresh("e") for _ in d]
            t = app("phi%d" % i, b, *vs) * app("use%d" % i, b, *vs)
            for v, n in reversed(list(zip(vs, d))):
                t = bsum(v.as_atom(), 0, n, t)
            r = r + t
        return r
    sr = E.ts.LogSemiring
    cky = E.mod("torch_struct.cky").CKY(sr)
    E.equals("score is the sum over the uses of terminals, rules and roots", cky.score(pots, uses), [B], want)
    E.equals("score ignores the span part", cky.score(pots, uses + (None,)), [B], want)
    E.frame()
