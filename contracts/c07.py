"""Entropy, cross-entropy and KL of the query layer."""
from vt.contract import *
from .family import *

FN = ["StructDistribution.entropy", "StructDistribution.cross_entropy", "StructDistribution.kl", "StructDistribution._struct",
      "StructDistribution.__init__", "_Struct.sum", "EntropySemiring.convert", "EntropySemiring.unconvert", "CrossEntropySemiring.convert",
      "CrossEntropySemiring.unconvert", "KLDivergenceSemiring.convert", "KLDivergenceSemiring.unconvert"]


def queries(E, rank, lens):
    F = Fam(E, rank, lens)
    d = F.Dist(F.pot, F.lens)
    B = F.B
    q = E.tensor("psi", [B] + F.D)
    o = F.Dist(q, F.lens)
    Q = lambda b: (lambda *e: app("psi", b, *e))
    lp = lambda b, z: F.score(b, z) - F.logZ(b)
    lq = lambda b, z: F.score(b, z, Q(b)) - F.logZ(b, Q(b))
    F.equals("entropy is -sum p log p", d.entropy, [B], lambda b: -sum_(lambda z: F.prob(b, z) * lp(b, z), F.M(b)))
    F.equals("cross entropy is -sum p log q", d.cross_entropy(o), [B], lambda b: -sum_(lambda z: F.prob(b, z) * lq(b, z), F.M(b)))
    F.equals("kl is sum p (log p - log q)", d.kl(o), [B], lambda b: sum_(lambda z: F.prob(b, z) * (lp(b, z) - lq(b, z)), F.M(b)))
    kl, ce, h = d.kl(o), d.cross_entropy(o), d.entropy
    b = fresh("b")
    with under(le(0, b), lt(b, B)) as c:
        at = lambda t: expand(t.elem(((b,),)), F.defs)
        prove("kl = cross entropy - entropy", at(kl), at(ce) - at(h), c)
        prove("kl of a distribution with itself vanishes", at(d.kl(d)), P(0), c)
    E.frame()


for _r in (2, 3, 4):
    for _l in (False, True):
        contract("C07", "entropy, cross entropy and KL of a distribution over events of rank %d%s" % (_r, ", lengths" if _l else ""), FN)(
            (lambda r, l: (lambda E: queries(E, r, l)))(_r, _l))

grammars("C07", ("entropy", "EntropySemiring", False))
