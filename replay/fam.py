"""Structure families: construction of inputs for the real library and mapping to the oracles."""
import math
import torch
from . import oracle

torch.set_num_threads(1)


def ts():
    import torch_struct
    return torch_struct


def values(shape, kind, gen, dtype=torch.float64):
    r = torch.randn(*shape, generator=gen, dtype=torch.float64)
    if kind == "normal":
        x = r
    elif kind == "wide":
        x = 5 * r
    elif kind == "huge":
        x = 60 * r
    elif kind == "neg":
        x = r - 20
    elif kind == "pos":
        x = r.abs() + 10
    elif kind == "zeros":
        x = 0 * r
    elif kind == "ints":
        x = torch.round(2 * r)
    elif kind == "sharp":
        x = torch.where(r > 0.3, r * 8, r * 0.1)
    elif kind == "exp":
        x = r.exp()
    else:
        raise ValueError(kind)
    return x.to(dtype)


def layout(x, how):
    """The same values in another memory layout."""
    if how == "strided":
        y = torch.zeros(*([2 * s for s in x.shape[:1]] + list(x.shape[1:])), dtype=x.dtype)
        y[::2] = x
        return y[::2]
    if how == "grad":
        return x.clone().requires_grad_(True)
    if how == "nonleaf":
        return x.clone().requires_grad_(True) * 1.0
    return x


class Fam:
    """One structure family."""
    full_max = False      # the maximum of the lengths must be the full length
    min_len = 1
    single = True         # potentials are one tensor

    def part(self, p):
        return p

    def mapped(self, phi, b):
        t = phi[b].detach().double()
        return _Map(t, self.part)

    def dense(self, marg, phi, b):
        out = torch.zeros(phi.shape[1:], dtype=torch.float64)
        for p, v in marg.items():
            out[self.part(p)] += v
        return out

    def indicator(self, parts, phi):
        out = torch.zeros(phi.shape[1:], dtype=torch.float64)
        for p in parts:
            out[self.part(p)] += 1
        return out

    def full(self, sizes):
        return sizes["N"]

    def mod(self):
        return self.__class__.__name__


class _Map:
    def __init__(self, t, part):
        self.t, self.part = t, part
        self.l = t.tolist()

    def __getitem__(self, p):
        x = self.l
        for i in self.part(p):
            x = x[i]
        return x


class LinearChain(Fam):
    full_max = True

    def shape(self, s):
        return (s["N"] - 1, s["C"], s["C"])

    def hyper(self, s, L, o):
        return oracle.linear_chain(L, s["C"])

    def dist(self, phi, lengths, o):
        return ts().LinearChainCRF(phi, lengths)

    def struct(self, sr, o):
        return ts().LinearChain(sr)

    def inside(self, s, L):
        return (slice(0, L - 1),)


class SemiMarkov(Fam):
    full_max = True

    def shape(self, s):
        return (s["N"] - 1, s["K"], s["C"], s["C"])

    def hyper(self, s, L, o):
        return oracle.semi_markov(L, s["K"], s["C"])

    def dist(self, phi, lengths, o):
        return ts().SemiMarkovCRF(phi, lengths)

    def struct(self, sr, o):
        return ts().SemiMarkov(sr)


class Dep(Fam):
    def shape(self, s):
        return (s["N"], s["N"]) + ((s["labels"],) if s.get("labels") else ())

    def hyper(self, s, L, o):
        return oracle.dep_tree(L, o.get("multiroot", True), s.get("labels"))

    def dist(self, phi, lengths, o):
        return ts().DependencyCRF(phi, lengths, multiroot=o.get("multiroot", True))

    def struct(self, sr, o):
        m = ts().DepTree(sr)
        m.multiroot = o.get("multiroot", True)
        return m


class Tree(Fam):
    def shape(self, s):
        return (s["N"], s["N"], s["NT"])

    def hyper(self, s, L, o):
        return oracle.span_tree(L, s["NT"])

    def dist(self, phi, lengths, o):
        return ts().TreeCRF(phi, lengths)

    def struct(self, sr, o):
        return ts().CKY_CRF(sr)


class CFG(Fam):
    min_len = 2
    single = False

    def shapes(self, s):
        S = s["NT"] + s["T"]
        return ((s["N"], s["T"]), (s["NT"], S, S), (s["NT"],))

    def hyper(self, s, L, o):
        return oracle.cfg(L, s["NT"], s["T"])

    def dist(self, phi, lengths, o):
        return ts().SentCFG(phi, lengths)

    def struct(self, sr, o):
        return ts().CKY(sr)

    def mapped(self, phi, b):
        return _CfgMap([p[b].detach().double().tolist() for p in phi])

    def dense(self, marg, phi, b):
        outs = [torch.zeros(p.shape[1:], dtype=torch.float64) for p in phi]
        N, NT = phi[0].shape[1], phi[2].shape[1]
        sp = torch.zeros(N, N, NT, dtype=torch.float64)
        for p, v in marg.items():
            if p[0] == "t":
                outs[0][p[1:]] += v
            elif p[0] == "r":
                outs[1][p[1:]] += v
            elif p[0] == "root":
                outs[2][p[1:]] += v
            else:
                sp[p[2] - p[1] - 1, p[1], p[3]] += v
        return outs + [sp]

    def indicator(self, parts, phi):
        m = {}
        for p in parts:
            m[p] = m.get(p, 0) + 1
        return self.dense(m, phi, 0)


class _CfgMap:
    def __init__(self, ls):
        self.ls = ls

    def __getitem__(self, p):
        if p[0] == "s":
            return 0.0
        x = self.ls[{"t": 0, "r": 1, "root": 2}[p[0]]]
        for i in p[1:]:
            x = x[i]
        return x


class _One:
    """Multiplicative identity for the span markers in non-log semirings."""


FAMS = {"lc": LinearChain(), "sm": SemiMarkov(), "dep": Dep(), "tree": Tree(), "cfg": CFG()}


def build(case):
    """(family, potentials, lengths tensor or None, list of lengths)"""
    f = FAMS[case["fam"]]
    s = case["sizes"]
    gen = torch.Generator().manual_seed(case.get("seed", 0))
    dt = getattr(torch, case.get("dtype", "float64"))
    B = case["batch"]
    if f.single:
        phi = values((B,) + f.shape(s), case.get("kind", "normal"), gen, dt)
        phi = layout(phi, case.get("layout"))
    else:
        phi = tuple(layout(values((B,) + sh, case.get("kind", "normal"), gen, dt), case.get("layout"))
                    for sh in f.shapes(s))
    ls = case.get("lengths")
    lengths = torch.tensor(ls, dtype=torch.long) if ls is not None else None
    return f, phi, lengths, (ls if ls is not None else [s["N"]] * B)
