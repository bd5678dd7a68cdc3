"""max, argmax, k-max and top-k of the query layer."""
from vt.contract import *
from .family import *

FN = ["StructDistribution.max", "StructDistribution.argmax", "StructDistribution.kmax", "StructDistribution.topk", "StructDistribution.mode",
      "StructDistribution._struct", "StructDistribution.__init__", "_Struct.sum", "_Struct.marginals", "_Struct._arrange_marginals",
      "KMaxSemiring.convert", "KMaxSemiring.unconvert"]


def best(F, b):
    z = fresh("z")
    return P(atom("argmax", mat([z.as_atom()], [F.M(b)], F.score(b, z)), sort="I"))


def rank_(F, b, j):
    z = fresh("z")
    return P(atom("ordix", j, mat([z.as_atom()], [F.M(b)], F.score(b, z)), sort="I"))


def queries(E, rank, lens):
    F = Fam(E, rank, lens)
    d = F.Dist(F.pot, F.lens)
    B = F.B
    F.equals("max is the highest structure score", d.max, [B], lambda b: max_(lambda z: F.score(b, z), F.M(b)))
    for nm in ("argmax", "mode"):
        F.equals("%s is the part indicator of a best structure" % nm, getattr(d, nm), [B] + F.D, lambda b, *e: b2n(F.part(b, best(F, b), *e)))
    k = E.size("k")
    F.equals("kmax lists the highest scores in order", d.kmax(mkint(k)), [k, B], lambda j, b: kth(j, [F.M(b)], lambda z: F.score(b, z)))
    F.equals("topk lists the part indicators of the best structures", d.topk(mkint(k)), [k, B] + F.D, lambda j, b, *e: b2n(F.part(b, rank_(F, b, j), *e)))
    E.frame()


for _r in (2, 3, 4):
    for _l in (False, True):
        contract("C09", "max, argmax, kmax, topk: events of rank %d%s" % (_r, ", lengths" if _l else ""), FN)(
            (lambda r, l: (lambda E: queries(E, r, l)))(_r, _l))


def select_one(E, rank, dim):
    """The gradient of a maximum goes to one maximiser, also among tied ones (contract of torch.max with an axis, not of torch.amax)."""
    D = [E.size("d%d" % i) for i in range(rank)]
    sr = E.mod("torch_struct.semirings.semirings").MaxSemiring
    ST.fn = "MaxSemiring.sum"
    x = E.tensor("x", D)
    ties = lambda what: ob("%s: the gradient selects a single argument" % what, not ST.ties, ", ".join(ST.ties) + " shares the gradient between ties",
                           status=None if not ST.ties else "unknown")
    sr.sum(x, dim)
    ties("sum")
    sr.plus(x, x)
    ties("plus")
    sr.dot(x, x)
    ties("dot")
    if rank > 1:
        sr.matmul(x, x.transpose(-1, -2))
        ties("matmul")


for _r in (1, 2, 3, 4):
    for _d in range(-_r, _r):
        contract("C09", "one maximiser, rank %d, axis %d" % (_r, _d), ["MaxSemiring.sum", "Semiring.plus", "Semiring.dot", "MaxSemiring.matmul"],
                 ["torch.max over an axis and torch.topk give each gradient to the one element they return the index of"])(
            (lambda r, d: (lambda E: select_one(E, r, d)))(_r, _d))

grammars("C09", ("max", "MaxSemiring", False), ("argmax", "MaxSemiring", False), ("kmax", "KMaxSemiring", False), ("topk", "KMaxSemiring", True))
