"""Concrete cases per property: a deterministic grid, special sizes taken from hints, and seeded random cases."""
import random

LADDER = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 100, 128, 129, 130]
KINDS = ["normal", "wide", "sharp", "neg", "ints", "zeros", "pos", "huge"]


def lens(rnd, f, B, N, mn, full_max):
    r = rnd.random()
    if r < 0.2:
        return None
    if r < 0.3:
        return [N] * B
    l = [rnd.randint(mn, N) for _ in range(B)]
    if full_max:
        l[rnd.randrange(B)] = N
    return l


LIM = {"lc": dict(N=(2, 40), C=(1, 5)), "sm": dict(N=(2, 14), K=(2, 6), C=(1, 3)), "dep": dict(N=(1, 8)),
       "tree": dict(N=(1, 9), NT=(1, 4)), "cfg": dict(N=(2, 6), NT=(1, 3), T=(1, 3))}
SMALL = {"lc": dict(N=(2, 6), C=(1, 3)), "sm": dict(N=(2, 6), K=(2, 4), C=(1, 2)), "dep": dict(N=(1, 5)),
         "tree": dict(N=(1, 5), NT=(1, 2)), "cfg": dict(N=(2, 4), NT=(1, 2), T=(1, 2))}
MINL = {"lc": 1, "sm": 1, "dep": 1, "tree": 1, "cfg": 2}
CAP = {"lc": 1100, "sm": 140, "dep": 36, "tree": 70, "cfg": 70}


def rand_case(rnd, fam, lim=None, small=False, kinds=KINDS, **kw):
    lim = (SMALL if small else LIM)[fam]
    sizes = {}
    for k, (lo, hi) in lim.items():
        if k == "N":
            sizes[k] = rnd.randint(lo, hi) if rnd.random() < 0.6 else rnd.randint(lo, min(hi, lo + 4))
        else:
            sizes[k] = rnd.randint(lo, hi)
    B = rnd.choice([1, 2, 2, 3, 4, 5])
    c = dict(fam=fam, sizes=sizes, batch=B, kind=rnd.choice(kinds), seed=rnd.randrange(10 ** 6))
    c["lengths"] = lens(rnd, fam, B, sizes["N"], min(MINL[fam], sizes["N"]), fam in ("lc", "sm"))
    if fam == "dep":
        c["opts"] = {"multiroot": rnd.random() < 0.5}
        if rnd.random() < 0.35 and not kw.get("unlabelled"):
            sizes["labels"] = rnd.randint(1, 3)
            sizes["N"] = min(sizes["N"], 6)
            if c["lengths"]:
                c["lengths"] = [min(l, sizes["N"]) for l in c["lengths"]]
    if rnd.random() < 0.25:
        c["layout"] = rnd.choice(["strided", "grad", "nonleaf"])
    if rnd.random() < 0.1:
        c["nograd"] = True
    kw.pop("unlabelled", None)
    c.update(kw)
    return c


def sweep(rnd, fam, run, hints, kinds=("normal",), **kw):
    """Every size once per dimension, others small; plus sizes suggested by hints."""
    out = []
    lim = LIM[fam]
    dims = list(lim)
    base = {"lc": dict(N=4, C=2), "sm": dict(N=5, K=3, C=2), "dep": dict(N=4), "tree": dict(N=4, NT=2),
            "cfg": dict(N=3, NT=2, T=2)}[fam]
    vals = {d: sorted(set(range(lim[d][0], min(lim[d][1], lim[d][0] + 8) + 1))) for d in dims}
    if fam == "lc":
        vals["N"] = sorted(set(vals["N"]) | {16, 17, 18, 32, 33, 34, 65, 66, 129, 130, 257, 300, 513, 1025})
    for h in hints.get("ints", []):
        for d in dims:
            cap = CAP[fam] if d == "N" else 24
            for x in (h - 1, h, h + 1):
                if lim[d][0] <= x <= cap and x not in vals[d]:
                    vals[d].append(x)
    joint = {"lc": [dict(N=7, C=7), dict(N=12, C=9)], "sm": [dict(N=9, K=8, C=2), dict(N=14, K=12, C=1), dict(N=20, K=18, C=1)],
             "dep": [], "tree": [dict(N=7, NT=6)], "cfg": [dict(N=4, NT=4, T=1), dict(N=4, NT=1, T=4), dict(N=5, NT=3, T=3)]}[fam]
    for h in hints.get("ints", []):
        if fam == "sm" and h <= 36:
            joint.append(dict(N=h + 4, K=h + 3, C=1))
        if fam == "lc" and h <= 20:
            joint.append(dict(N=h + 2, C=h + 1))
        if fam == "tree" and h <= 12:
            joint.append(dict(N=h + 1, NT=h + 1))
        if fam == "cfg" and h <= 5:
            joint.append(dict(N=h + 1, NT=h, T=h))
    bs = [1, 2, 3, 4, 6, 9]
    for h in hints.get("ints", []):
        for x in (h, h + 1):
            if 1 <= x <= 70 and x not in bs:
                bs.append(x)
    def mk(sizes, B, **more):
        s = dict(base, **sizes)
        N = s["N"]
        if fam in ("tree", "cfg") and N > {"tree": 26, "cfg": 12}[fam]:
            s = {d: N if d == "N" else 1 for d in s}
        res = []
        for variant in (None, "mixed"):
            if variant is None:
                ls = None
            else:
                ls = [rnd.randint(min(MINL[fam], N), N) for _ in range(B)]
                if fam in ("lc", "sm"):
                    ls[rnd.randrange(B)] = N
            c = dict(fam=fam, sizes=s, batch=B, kind=rnd.choice(list(kinds)), seed=rnd.randrange(10 ** 6), lengths=ls)
            if fam == "dep":
                c["opts"] = {"multiroot": rnd.random() < 0.5}
            c.update(kw)
            c.update(more)
            c["run"] = run
            res.append(c)
        return res
    for d in dims:
        for x in vals[d]:
            out += mk({d: x}, 2)
    for B in bs:
        out += mk({}, B)
    for j in joint:
        out += mk(j, 2)
    for m in hints.get("models", []):
        s = {}
        for d in dims:
            v = m.get(d)
            if v is not None and lim[d][0] <= v <= (CAP[fam] if d == "N" else 12):
                s[d] = v
        B = m.get("batch", 2)
        out += mk(s, B if 1 <= B <= 12 else 2)
    return out


SRS = ["log", "max", "std", "kmax2", "kmax3", "entropy"]


def sums(fam):
    def gen(rnd, hints, n):
        out = []
        for sr in ("log", "std", "max", "kmax3"):
            out += sweep(rnd, fam, "sum", hints, kinds=("exp",) if sr == "std" else ("normal", "sharp"), sr=sr)
        # every small (N, length) combination once
        lo = LIM[fam]["N"][0]
        for N in range(lo, lo + 7 if fam != "cfg" else lo + 4):
            for L in range(min(MINL[fam], N), N + 1):
                for o in ([{"multiroot": True}, {"multiroot": False}] if fam == "dep" else [{}]):
                    b = {"lc": dict(C=2), "sm": dict(K=3, C=2), "dep": {}, "tree": dict(NT=2), "cfg": dict(NT=2, T=1)}[fam]
                    out.append(dict(run="sum", fam=fam, sizes=dict(b, N=N), batch=2, lengths=[L, N], kind="normal",
                                    seed=rnd.randrange(10 ** 6), sr="log", opts=o))
                    out.append(dict(run="sum", fam=fam, sizes=dict(b, N=N), batch=2, lengths=[N, L], kind="exp",
                                    seed=rnd.randrange(10 ** 6), sr="std", opts=o))
        while len(out) < n:
            sr = rnd.choice(["log", "log", "max", "std", "kmax2", "kmax3", "kmax5", "kmax1", "entropy", "sampled",
                             "multi", "ckpt:log", "shard5:log", "ckpt:max"])
            kinds = ["normal", "exp", "ints"] if sr == "std" else KINDS
            if sr == "entropy":
                kinds = ["normal", "wide", "sharp"]
            c = rand_case(rnd, fam, kinds=kinds, run="sum", sr=sr, small=sr.startswith("kmax") and rnd.random() < 0.5)
            if sr in ("log", "max") and rnd.random() < 0.15:
                c["dtype"] = "float32"
                c["kind"] = "normal"
            if sr == "std" and "layout" in c:
                c.pop("layout")
            out.append(c)
        return out
    return gen


def g_algebra(rnd, hints, n):
    out = []
    names = ["log", "max", "std", "kmax1", "kmax2", "kmax3", "kmax5", "entropy", "ce", "kl", "fastlog", "fastmax", "fastsample"]
    for h in hints.get("ints", []):
        if 1 <= h <= 12 and "kmax%d" % h not in names:
            names.append("kmax%d" % h)
    def shp(r=None, hi=4):
        return [rnd.randint(1, hi) for _ in range(r if r is not None else rnd.randint(1, 4))]
    kinds = ["normal", "wide", "neg", "ints", "zeros", "pos"]
    for nm in names:
        km = nm.startswith("kmax")
        for s in ([3], [2, 3], [3, 3], [2, 3, 4], [3, 3, 3], [1, 2, 3], [2, 1, 3, 2], [3, 3, 3, 3]):
            for dim in range(-len(s), len(s) + 1):
                if dim == 0 or km and dim != -1:
                    continue
                for op in ("sum",) if km else ("sum", "prod"):
                    out.append(dict(run="algebra", sr=nm, op=op, shape=s, dim=dim, kind="normal", seed=rnd.randrange(10 ** 6), default=False))
    while len(out) < n:
        for nm in names:
            km = nm.startswith("kmax")
            s = shp()
            big = rnd.random() < 0.1
            if big:
                s[-1] = rnd.choice([7, 8, 9, 16, 17, 33, 65])
            dim = -1
            if not km and rnd.random() < 0.6:
                dim = rnd.choice([d for d in range(-len(s), len(s) + 1) if d != 0])
            k = rnd.choice(kinds)
            sd = rnd.randrange(10 ** 6)
            out.append(dict(run="algebra", sr=nm, op="sum", shape=s, dim=dim, kind=k, seed=sd, default=dim == -1 and rnd.random() < .5))
            out.append(dict(run="algebra", sr=nm, op="plus", shape=shp(), kind=k, seed=sd))
            base = shp(3)
            shs = [[x if rnd.random() < 0.7 else 1 for x in base] for _ in range(3)]
            out.append(dict(run="algebra", sr=nm, op="times", n=rnd.choice([1, 2, 2, 3]), shape=base,
                            shapes=[base] + shs[1:], kind=k, seed=sd))
            d2 = rnd.choice([d for d in range(-len(s), len(s) + 1) if d != 0])
            if not km:
                out.append(dict(run="algebra", sr=nm, op="prod", shape=s, dim=d2, kind="normal", seed=sd, default=False))
            j = rnd.choice([1, 2, 3, 5, 8])
            lead = shp(rnd.randint(0, 2), 3)
            la = [x if rnd.random() < 0.7 else 1 for x in lead]
            lb = [x if rnd.random() < 0.7 else 1 for x in lead]
            # broadcasting is against the semiring axis too, so ranks agree
            out.append(dict(run="algebra", sr=nm, op="matmul", shape=[], sa=la + [rnd.randint(1, 3), j],
                            sb=lb + [j, rnd.randint(1, 3)], kind=k, seed=sd))
            la = [x if rnd.random() < 0.7 else 1 for x in lead] or [1]
            lb = [x if rnd.random() < 0.7 else 1 for x in lead] or [1]
            out.append(dict(run="algebra", sr=nm, op="dot", shape=[], sa=la + [j], sb=lb + [j], kind=k, seed=sd))
            out.append(dict(run="algebra", sr=nm, op="fill", shape=shp(), kind=k, seed=sd))
            out.append(dict(run="algebra", sr=nm, op="convert", shape=shp(), kind=k, seed=sd))
    return out


def g_info(rnd, hints, n):
    out = []
    for fam in ("lc", "tree"):
        out += sweep(rnd, fam, "info", hints, kinds=("normal", "wide"), pair="diff")
    for fam in ("sm", "dep", "cfg"):
        out += sweep(rnd, fam, "info", hints, kinds=("normal", "wide"))
    while len(out) < n:
        fam = rnd.choice(["lc", "lc", "tree", "tree", "sm", "dep", "cfg"])
        c = rand_case(rnd, fam, kinds=["normal", "wide", "sharp", "neg", "zeros", "pos"], run="info")
        if fam in ("lc", "tree"):
            c["pair"] = rnd.choice(["diff", "diff", "same"])
            c["kind2"] = c["kind"] if c["pair"] == "same" else rnd.choice(["normal", "wide", "sharp", "pos"])
        out.append(c)
    return out


def g_marg(rnd, hints, n):
    out = []
    for fam in ("lc", "sm", "dep", "tree", "cfg"):
        out += sweep(rnd, fam, "marginals", hints, kinds=("normal", "wide"))
    while len(out) < n:
        c = rand_case(rnd, rnd.choice(["lc", "sm", "dep", "tree", "cfg"]), run="marginals",
                      kinds=["normal", "wide", "sharp", "neg", "ints", "zeros", "pos"])
        if rnd.random() < 0.1:
            c["dtype"], c["kind"] = "float32", "normal"
        out.append(c)
    return out


def g_best(rnd, hints, n):
    out = []
    for fam in ("lc", "sm", "dep", "tree", "cfg"):
        out += [c for c in sweep(rnd, fam, "best", hints, kinds=("normal",), k=3) if c["sizes"]["N"] <= 18 or fam == "lc"]
        for k in sorted(set([1, 2, 4, 5, 7, 8, 9] + [h + d for h in hints.get("ints", []) for d in (0, 1) if 1 <= h + d <= 20])):
            b = {"lc": dict(N=4, C=2), "sm": dict(N=5, K=3, C=2), "dep": dict(N=4), "tree": dict(N=4, NT=2),
                 "cfg": dict(N=3, NT=2, T=2)}[fam]
            out.append(dict(run="best", fam=fam, sizes=b, batch=2, lengths=None, kind="normal", k=k,
                            seed=rnd.randrange(10 ** 6), opts={"multiroot": k % 2 == 0} if fam == "dep" else {}))
    while len(out) < n:
        c = rand_case(rnd, rnd.choice(["lc", "sm", "dep", "tree", "cfg"]), run="best", small=rnd.random() < 0.6,
                      kinds=["normal", "wide", "sharp", "neg", "ints", "pos", "huge"])
        c["k"] = rnd.choice([1, 2, 3, 4, 5])
        if c["sizes"].get("labels"):
            c["kind"] = "normal"
        out.append(c)
    return out


def g_sample(rnd, hints, n):
    out = []
    fams = ["lc", "sm", "dep", "tree"]
    sm = {"lc": [dict(N=3, C=2), dict(N=4, C=2), dict(N=6, C=2), dict(N=2, C=3)],
          "sm": [dict(N=3, K=3, C=2), dict(N=5, K=3, C=1), dict(N=4, K=4, C=2)],
          "dep": [dict(N=2), dict(N=3), dict(N=4)], "tree": [dict(N=3, NT=2), dict(N=4, NT=1), dict(N=2, NT=3)]}
    for fam in fams:
        for s in sm[fam]:
            for ls in (None, "mixed"):
                N = s["N"]
                l = None if ls is None else [N, max(2, N - 1)]
                out.append(dict(run="sample", fam=fam, sizes=s, batch=2, lengths=l, kind="normal",
                                seed=rnd.randrange(10 ** 6), n=20, calls=110,
                                opts={"multiroot": rnd.random() < .5} if fam == "dep" else {}))
    for fam in fams:
        out += [dict(c, n=rnd.choice([1, 3, 10, 11, 12, 21])) for c in
                sweep(rnd, fam, "sample", {"ints": [h for h in hints.get("ints", []) if h < 30]}, kinds=("normal", "sharp"))
                if c["sizes"]["N"] <= {"lc": 9, "sm": 6, "dep": 5, "tree": 6}[fam] and c["sizes"].get("C", 1) <= 3
                and c["sizes"].get("K", 1) <= 5 and c["sizes"].get("NT", 1) <= 3]
    for sr in ("sampled", "multi", "gmax"):
        for shape in ([5], [3, 4], [2, 3, 4], [2, 3, 2, 3]):
            for dim in range(-len(shape), len(shape)):
                out.append(dict(run="draws", sr=sr, shape=shape, dim=dim, seed=rnd.randrange(10 ** 6), temp=rnd.choice([0.5, 1.0, 2.0])))
        out.append(dict(run="draws", sr=sr, shape=[6], dim=-1, freq=3000 if sr == "gmax" else 600, seed=rnd.randrange(10 ** 6)))
        out.append(dict(run="draws", sr=sr, shape=[3, 4, 2], dim=1, freq=300, seed=rnd.randrange(10 ** 6)))
    while len(out) < n:
        c = rand_case(rnd, rnd.choice(fams), run="sample", small=True, kinds=["normal", "wide", "sharp", "zeros"], unlabelled=True)
        c["n"] = rnd.choice([1, 2, 10, 11, 20, 33])
        r = rnd.random()
        if r < 0.2:
            c["run"] = "gumbel"
            c["temp"] = rnd.choice([0.5, 1.0, 2.0])
        elif r < 0.4:
            c["run"] = "sampled_semiring"
        out.append(c)
    return out


def g_padding(rnd, hints, n):
    out = []
    modes = ["pad", "neigh", "alone", "perm"]
    for fam in ("lc", "sm", "dep", "tree", "cfg"):
        for i, c in enumerate(sweep(rnd, fam, "padding", hints, kinds=("normal", "wide"))):
            if c["lengths"] is None or c["sizes"]["N"] > 34:
                continue
            out.append(dict(c, mode="pad", k=2))
            out.append(dict(c, mode=modes[1 + i % 3], k=2))
    while len(out) < n:
        c = rand_case(rnd, rnd.choice(["lc", "sm", "dep", "tree", "cfg"]), run="padding",
                      kinds=["normal", "wide"], mode=rnd.choice(modes), unlabelled=True)
        c.pop("layout", None)
        if c["lengths"] is None:
            continue
        c["k"] = rnd.choice([1, 2, 3])
        out.append(c)
    return out


def g_convert(rnd, hints, n):
    out = []
    hs = [h + d for h in hints.get("ints", []) for d in (-1, 0, 1) if 2 <= h + d <= 40]
    def one(fam, N, B, C, K):
        ls = None
        mn = {"lc": 2, "sm": 2, "dep": 1, "cfg": 2}[fam]
        if rnd.random() < 0.5 or fam == "cfg":
            ls = [rnd.randint(mn, N) for _ in range(B)]
        return dict(run="convert", fam=fam, N=N, batch=B, C=C, K=K, NT=rnd.randint(1, 3), T=rnd.randint(1, 3), lengths=ls,
                    seed=rnd.randrange(10 ** 6), junk=True)
    for fam in ("lc", "sm", "dep", "cfg"):
        for N in list(range(2, 11)) + [x for x in hs if x > 10]:
            out.append(one(fam, N, 2, 3, 3))
            out.append(dict(one(fam, N, 3, 2, 4), lengths=None if fam != "cfg" else [N] * 3))
        for B in [1, 3, 5] + hs:
            out.append(one(fam, 4, B, 2, 3))
        for C in [1, 4, 6] + hs:
            out.append(one(fam, 4, 2, C, 3))
        for K in [2, 5, 7]:
            out.append(one(fam, 6, 2, 2, K))
    while len(out) < n:
        out.append(one(rnd.choice(["lc", "sm", "dep", "cfg"]), rnd.randint(2, 12), rnd.randint(1, 5), rnd.randint(1, 5),
                       rnd.randint(2, 6)))
    return out


def g_adapter(rnd, hints, n):
    out = []
    hs = [h + d for h in hints.get("ints", []) for d in (0, 1) if 2 <= h + d <= 20]
    def one(what, **kw):
        c = dict(run="adapter", what=what, batch=rnd.randint(1, 4), N=rnd.randint(2, 6), C=rnd.randint(1, 4),
                 V=rnd.randint(1, 5), K=rnd.randint(2, 4), seed=rnd.randrange(10 ** 6), kind=rnd.choice(["normal", "wide", "neg"]),
                 norm=rnd.random() < 0.5, binit=rnd.random() < 0.5)
        c.update(kw)
        if what == "hmm" and rnd.random() < 0.4:
            c["lengths"] = [rnd.randint(2, c["N"]) for _ in range(c["batch"] - 1)] + [c["N"]]
        return c
    for what in ("hmm", "hsmm"):
        for d in ("batch", "N", "C", "V", "K"):
            for x in ([1] if d in ("batch", "C", "V") else []) + [2, 3, 5, 8] + hs:
                out.append(one(what, **{d: x}))
    while len(out) < n:
        out.append(one(rnd.choice(["hmm", "hsmm"])))
    return out


def g_nonproj(rnd, hints, n):
    out = []
    hs = [h + d for h in hints.get("ints", []) for d in (0, 1) if 2 <= h + d <= 30]
    for N in [1, 2, 3, 4, 5, 6, 8, 11] + hs:
        for multi in (True, False):
            for lm in (None, "mixed", "full"):
                B = rnd.randint(1, 4)
                ls = None if lm is None else [N] * B if lm == "full" else [rnd.randint(1, N) for _ in range(B)]
                out.append(dict(run="nonproj", N=N, batch=B, lengths=ls, multiroot=multi, seed=rnd.randrange(10 ** 6),
                                brute=True, dtype="float64"))
    while len(out) < n:
        N, B = rnd.randint(1, 8), rnd.randint(1, 5)
        out.append(dict(run="nonproj", N=N, batch=B, multiroot=rnd.random() < .5, seed=rnd.randrange(10 ** 6), brute=True,
                        lengths=None if rnd.random() < .4 else [rnd.randint(1, N) for _ in range(B)],
                        dtype=rnd.choice(["float64", "float64", "float32"]), kind=rnd.choice(["normal", "normal", "pos"])))
    return out


def g_checkpoint(rnd, hints, n):
    out = []
    while len(out) < n:
        lead = [rnd.randint(1, 3) for _ in range(rnd.randint(0, 2))]
        la = [x if rnd.random() < 0.75 else 1 for x in lead]
        lb = [x if rnd.random() < 0.75 else 1 for x in lead]
        j = rnd.randint(1, 4)
        c = dict(run="checkpoint", sr=rnd.choice(["log", "log", "max", "std", "kmax2", "entropy", "kl"]),
                 sa=la + [rnd.randint(1, 4), j], sb=lb + [j, rnd.randint(1, 4)], wrap=rnd.choice(["check", "shard", "shard"]),
                 grad=rnd.choice(["ab", "ab", "a", "b", ""]), seed=rnd.randrange(10 ** 6), kind=rnd.choice(["normal", "wide"]))
        if rnd.random() < 0.15:
            c["sa"] = la + [1, j]
        if c["wrap"] == "check":
            if rnd.random() < 0.5:
                c["min_size"] = rnd.choice([0, 1, 8, 1000])
        else:
            c["max_size"] = rnd.choice([0, 1, 2, 5, 10, 30, 100, 10000] + [h for h in hints.get("ints", []) if h > 0])
            if rnd.random() < 0.3:
                c["min_size"] = rnd.choice([0, 10, 1000])
        if rnd.random() < 0.2:
            c["op"] = "dot"
            c["sa"] = (la or [2]) + [j]
            c["sb"] = (lb or [2]) + [j]
        out.append(c)
    return out


def g_ar(rnd, hints, n):
    out = []
    hs = [h + d for h in hints.get("ints", []) for d in (0, 1) if 1 <= h + d <= 12]
    def base(**kw):
        c = dict(batch=rnd.randint(1, 4), C=rnd.randint(2, 4), N=rnd.randint(1, 5), n=rnd.randint(1, 4),
                 seed=rnd.randrange(10 ** 6), normalize=rnd.random() < 0.6, extra=rnd.random() < 0.3,
                 scale=rnd.choice([0.5, 2.0, 5.0]))
        if rnd.random() < 0.5:
            c["start"] = rnd.randrange(c["C"])
        c.update(kw)
        return c
    for d in ("batch", "C", "N", "n"):
        for x in [1, 2, 3, 5, 7] + hs:
            out.append(base(run="ar_logprob", **{d: x}))
    for _ in range(6):
        out.append(base(run="ar_logprob", all=True, N=rnd.randint(1, 3), C=2))
    for _ in range(4):
        out.append(base(run="ar_sample", n=3000, C=2, N=rnd.randint(1, 3), batch=2))
    for x in [1, 2, 5] + hs:
        out.append(base(run="ar_sample", n=x, scale=1e5))
        out.append(base(run="ar_sample", n=4, N=x, scale=1e5))
        out.append(base(run="ar_sample", n=4, batch=x, scale=1e5))
    while len(out) < n:
        r = rnd.random()
        if r < 0.6:
            out.append(base(run="ar_logprob"))
        else:
            out.append(base(run="ar_sample", scale=1e5))
    return out


def g_beam(rnd, hints, n):
    out = []
    hs = [h + d for h in hints.get("ints", []) for d in (0, 1) if 1 <= h + d <= 12]
    def base(**kw):
        c = dict(run="beam", batch=rnd.randint(1, 4), C=rnd.randint(2, 4), N=rnd.randint(1, 5), K=rnd.randint(0, 5),
                 seed=rnd.randrange(10 ** 6), normalize=rnd.random() < 0.6, extra=rnd.random() < 0.3, scale=rnd.choice([2.0, 5.0]))
        if rnd.random() < 0.5:
            c["start"] = rnd.randrange(c["C"])
        if rnd.random() < 0.1:
            c["nograd"] = True
        c.update(kw)
        while c["K"] > c["C"] ** min(c["N"], 3):
            c["K"] -= 1
        return c
    for d in ("batch", "C", "N", "K"):
        for x in [1, 2, 3, 4, 6, 8] + hs:
            for K in (0, 3):
                out.append(base(**dict({"K": K}, **{d: x})))
    for N in (1, 2, 3):
        out.append(base(N=N, C=2, K=2 ** N))
        out.append(base(N=N, C=3, K=3 ** N, batch=2))
    for K in (1, 2, 3):
        for N in (1, 2, 3):
            if K == 1 or N == 1:
                out.append(base(run="swor", K=K, N=N, C=3 if K < 3 else 4, batch=600, same=True, scale=1.0))
    for _ in range(30):
        c = base(run="swor", scale=2.0)
        c["K"] = max(1, c["K"])
        while c["K"] > c["C"] ** c["N"]:
            c["K"] -= 1
        out.append(c)
    for al in (0, 0.5, 1, 3.0):
        for N in (1, 2, 3, 5):
            out.append(base(run="tempmax", N=N, alpha=al))
    while len(out) < n:
        out.append(base())
    return out


def g_pure(rnd, hints, n):
    out = []
    for _ in range(n):
        out.append(dict(run="pure", seed=rnd.randrange(10 ** 6), objects=rnd.choice([2, 3, 4]), steps=24,
                        **({"fams": ["dep"]} if rnd.random() < 0.25 else {}), **({"nograd": True} if rnd.random() < 0.2 else {})))
    return out


def g_sparse(rnd, hints, n):
    out = []
    hs = [h + d for h in hints.get("ints", []) for d in (0, 1) if 1 <= h + d <= 40]
    def one(**kw):
        s = [rnd.randint(1, 5) for _ in range(rnd.randint(1, 4))]
        c = dict(run=rnd.choice(["sparsemax", "sparsejac"]), shape=s, dim=rnd.choice(range(-len(s), len(s))),
                 kind=rnd.choice(["normal", "wide", "neg", "zeros", "ints"]), scale=rnd.choice([0.1, 0.5, 1.0, 3.0]),
                 seed=rnd.randrange(10 ** 6))
        c.update(kw)
        if c["run"] == "sparsejac" and c["dim"] < len(c["shape"]) - 1 and c["dim"] != -1 and False:
            pass
        return c
    for x in [1, 2, 3, 8, 9, 16, 17] + hs:
        out.append(one(shape=[2, x], dim=-1))
        out.append(one(shape=[x, 2], dim=-1))
    while len(out) < n:
        out.append(one())
    return out


def g_logprob(rnd, hints, n):
    out = []
    fams = ["lc", "sm", "dep", "tree"]
    for fam in fams:
        out += [dict(c, n=4) for c in sweep(rnd, fam, "logprob", {"ints": [h for h in hints.get("ints", []) if h < 12]},
                                            kinds=("normal", "wide"))
                if c["sizes"]["N"] <= {"lc": 8, "sm": 6, "dep": 5, "tree": 6}[fam] and c["sizes"].get("C", 1) <= 3
                and c["sizes"].get("K", 1) <= 6 and c["sizes"].get("NT", 1) <= 3]
        out += sweep(rnd, fam, "count", hints)
    for _ in range(60):
        out.append(rand_case(rnd, "cfg", run="cfgscore", small=True, kinds=["normal", "wide", "neg"]))
    while len(out) < n:
        fam = rnd.choice(fams)
        if rnd.random() < 0.5:
            c = rand_case(rnd, fam, run="logprob", small=True, kinds=["normal", "wide", "neg", "zeros"], unlabelled=True)
            if "layout" in c and c["layout"] == "strided":
                c.pop("layout")
            c["n"] = rnd.choice([1, 2, 4])
            c["all"] = rnd.random() < 0.5 and c["sizes"]["N"] <= 4
            c["evtype"] = rnd.choice(["float64", "float32", "int64"])
        else:
            c = rand_case(rnd, fam, run="count", kinds=["normal", "zeros"], unlabelled=True)
            c["forbid"] = rnd.random() < 0.5
            c.pop("layout", None)
        out.append(c)
    return out


ANSWERS = {"lc": ["partition", "log_prob", "entropy", "cross_entropy", "kl", "max", "kmax", "marginals"],
           "sm": ["partition", "log_prob", "entropy", "max", "kmax", "marginals"], "dep": ["partition", "log_prob", "entropy", "max", "kmax", "marginals"],
           "tree": ["partition", "log_prob", "entropy", "cross_entropy", "kl", "max", "kmax", "marginals"],
           "cfg": ["partition", "entropy", "max", "kmax", "marginals"]}


def g_grad(rnd, hints, n):
    out = []
    top = {"lc": 70, "sm": 16, "dep": 9, "tree": 12, "cfg": 8}
    for fam, qs in ANSWERS.items():
        cs = [c for c in sweep(rnd, fam, "grad", hints) if c["sizes"]["N"] <= top[fam]]
        rnd.shuffle(cs)
        for i, c in enumerate(cs):
            out.append(dict(c, q=qs[i % len(qs)], k=rnd.choice([1, 2, 3])))
    hs = [h + d for h in hints.get("ints", []) for d in (0, 1) if 2 <= h + d <= 20]

    def param(**kw):
        what = rnd.choice(["hmm", "hsmm", "nonproj", "ar"])
        c = dict(run="gradparam", what=what, batch=rnd.randint(1, 4), N=rnd.randint(2, 6), C=rnd.randint(1, 4), V=rnd.randint(1, 5), K=rnd.randint(2, 4),
                 seed=rnd.randrange(10 ** 6), binit=rnd.random() < 0.5, multiroot=rnd.random() < 0.5, onehot=rnd.random() < 0.5, norm=rnd.random() < 0.7)
        c.update(kw)
        c["start"] = rnd.randrange(c["C"])
        c["q"] = rnd.choice(["partition", "marginals"] if c["what"] == "nonproj" else ["partition", "marginals", "entropy"])
        if c["what"] in ("hmm", "nonproj") and rnd.random() < 0.5:
            c["lengths"] = [rnd.randint(2, c["N"]) for _ in range(c["batch"] - 1)] + [c["N"]]
        return c
    for what in ("hmm", "hsmm", "nonproj", "ar"):
        for d in ("batch", "N", "C", "V", "K"):
            for x in [2, 3, 5, 8] + hs:
                if x <= (8 if d != "batch" and what == "hsmm" else 20):
                    out.append(param(what=what, **{d: x}))
    while len(out) < n:
        if rnd.random() < 0.25:
            out.append(param())
            continue
        fam = rnd.choice(list(ANSWERS))
        c = rand_case(rnd, fam, run="grad", small=rnd.random() < 0.5, kinds=["normal", "neg", "pos"])
        c.pop("layout", None)
        c.pop("nograd", None)
        c["q"] = rnd.choice([q for q in ANSWERS[fam] if q != "log_prob" or not c["sizes"].get("labels")])
        c["k"] = rnd.choice([1, 2, 3])
        out.append(c)
    return out


GEN = {"C01": sums("lc"), "C02": sums("sm"), "C03": sums("dep"), "C04": sums("tree"), "C05": sums("cfg"),
       "C06": g_algebra, "C07": g_info, "C08": g_marg, "C09": g_best, "C10": g_sample, "C11": g_padding,
       "C12": g_convert, "C13": g_adapter, "C14": g_nonproj, "C15": g_checkpoint, "C16": g_ar, "C17": g_beam,
       "C18": g_pure, "C19": g_sparse, "C20": g_logprob, "C22": g_grad}
