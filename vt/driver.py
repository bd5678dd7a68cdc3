"""Runs the contracts of one property in worker processes and collects their obligations.  Nothing in here raises: whatever
goes wrong inside the verifier becomes an open ("unknown") obligation of the contract concerned."""
import glob
import importlib
import multiprocessing as mp
import os
import time
import traceback
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
BUDGET = {"quick": 75, "thorough": 600}
JOBS = 7

TRUSTED = [
    "CPython executing the instrumented source of /repo (loops, comprehensions and list displays are rewritten by vt/loops.py; "
    "everything else of the source text runs unchanged)",
    "vt/stensor.py, vt/sops.py, vt/storch.py: the contracts assumed for the torch operations (shapes, views, aliasing, element values)",
    "vt/prover.py and vt/terms.py: rewriting with the commutative-semiring laws, exact rational arithmetic and bounded sums",
    "z3: integer/real index arithmetic",
    "real arithmetic in place of IEEE floats; view() never fails for stride reasons; devices are not modelled, of the float types only \"default precision\" and \"precision of the inputs\" are told apart",
]


# Lemmas about the specifications alone (no code involved), checked by Lean on every run: file, theorems, what they say.
LEMMAS = {
    "C01": ("Chain.lean", [("Chain.scan_is_enumeration", "the scan recursion is the sum over all label sequences")]),
    "C02": ("SemiMarkov.lean", [("SemiMarkov.mem_segs", "the enumerated set is the set of all segmentations"),
                                ("SemiMarkov.scan_is_enumeration", "the scan recursion is the sum over all labelled segmentations")]),
    "C03": ("Eisner.lean", [("Eisner.mem_trees", "the enumerated set is the set of all projective dependency trees"),
                            ("Eisner.multi_root", "the span recursion is the sum over all projective trees, each once"),
                            ("Eisner.single_root", "the single-root read-out is the sum over the projective trees with one word below the root"),
                            ("Eisner.labels", "arc scores summed over labels give the sum over all labellings")]),
    "C04": ("Trees.lean", [("Trees.mem_trees", "the enumerated set is the set of all trees"),
                           ("Trees.inside_is_enumeration", "the span recursion is the sum over all labelled bracketings")]),
    "C05": ("Trees.lean", [("Trees.mem_trees", "the enumerated set is the set of all trees"),
                           ("Trees.grammar_is_enumeration", "the grammar recursion is the sum over all derivations")]),
    "C07": ("Family.lean", [("Family.kl_nonneg", "the KL divergence of two finite families is non-negative")]),
    "C08": ("Family.lean", [("Family.marginal", "the derivative of the log-partition is the expected number of uses of a part")]),
    "C09": ("Family.lean", [("Family.best", "the derivative of the maximum is the number of uses in the best structure, where it is unique")]),
    "C10": ("Sampling.lean", [("Sampling.val_is_total", "the forward value of a sum-product circuit is the total weight of its structures"),
                              ("Sampling.sampling_is_exact", "choosing an alternative of each sum in proportion to its value draws each structure with its probability")]),
    "C14": ("MatrixTree.lean", [("MatrixTree.multi_root", "matrix-tree theorem: the determinant is the sum over all trees, any number of root words"),
                                ("MatrixTree.single_root", "matrix-tree theorem with one root word; detached words outside the length"),
                                ("MatrixTree.multi_root_marginal", "weight times the stated difference of inverse entries is the probability of a head"),
                                ("MatrixTree.single_root_marginal", "the same with one root word")]),
    "C19": ("Sparsemax.lean", [("Sparsemax.closed_form_is_projection", "the closed form is the Euclidean projection onto the simplex")]),
    "C20": ("Family.lean", [("Family.probabilities_sum_to_one", "exp of score minus log-partition sums to one over the family")]),
}
AXIOMS = {"propext", "Classical.choice", "Quot.sound"}


def start_lean(prop):
    if prop not in LEMMAS:
        return None
    import shutil
    import subprocess
    d = os.path.join(os.path.dirname(HERE), "lean")
    exe = shutil.which("lean") or "/app/lean4-4.33.0/build/release/stage1/bin/lean"
    try:
        return time.time(), subprocess.Popen([exe, LEMMAS[prop][0]], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError as e:
        return time.time(), e


def finish_lean(prop, run, budget):
    """Obligations of the lemmas: Lean accepts the file and the theorem rests on the standard axioms only."""
    import re
    import subprocess
    t0, p = run
    f, ths = LEMMAS[prop]
    try:
        out = p.communicate(timeout=max(30, budget * 2))[0] if isinstance(p, subprocess.Popen) else str(p)
        ok = isinstance(p, subprocess.Popen) and p.returncode == 0
    except subprocess.TimeoutExpired:
        p.kill()
        out, ok = "time limit", False
    obs = []
    for th, what in ths:
        m = re.search(r"'%s' depends on axioms: \[([^\]]*)\]" % re.escape(th), out)
        none = "'%s' does not depend on any axioms" % th in out
        good = ok and (none or bool(m) and {x.strip() for x in m.group(1).split(",")} <= AXIOMS)
        obs.append({"name": "lemma %s (lean/%s) / %s" % (th, f, what), "function": "specification", "status": "proved" if good else "unknown",
                    "detail": None if good else out[-1500:], "model": None, "backend": "lean"})
    return obs, time.time() - t0


def load():
    from . import contract
    d = os.path.join(os.path.dirname(HERE), "contracts")
    for f in sorted(glob.glob(os.path.join(d, "c[0-9]*.py"))):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
    return contract.CONTRACTS


def unknown(c, what, detail):
    return {"name": "%s / %s" % (c.name, what), "function": c.functions[0] if c.functions else c.name, "status": "unknown",
            "detail": detail, "model": None, "backend": "vt+z3"}


def work(c, repo, budget, conn, track=False):
    import sys
    sys.setrecursionlimit(20000)
    from .state import ST
    ST.track_default = track
    try:
        from . import contract
        from .ctx import STATS
        obs, paths, secs = contract.run_contract(c, repo, budget)
        conn.send({"obligations": obs, "paths": paths, "seconds": secs, "z3_time": STATS["time"], "z3_queries": STATS["queries"],
                   "bounded": list(contract.BOUNDED), "instrumented": contract.extraction()})
    except BaseException:
        conn.send({"obligations": [unknown(c, "verifier", traceback.format_exc()[-3000:])], "paths": 0, "seconds": 0, "z3_time": 0,
                   "z3_queries": 0, "bounded": [], "instrumented": {}})
    conn.close()


C15_FRAME = ("leading axes none", "leading axes b", "leading axes bb")


def framed(c):
    """Purity (C18) is the frame part of the other contracts; the matmul wrappers repeat one frame over many shapes, a few stand for all."""
    return c.props[0] not in ("C11", "C15") and not (c.props == ["C06"] and "rank 5" in c.name)


def padded(c):
    """Non-interference of the queries (C11): the query contracts with lengths; they speak about the element's own family only."""
    return c.props[0] in ("C07", "C08", "C09", "C20") and ("lengths" in c.name or "marginals," in c.name)


# the query layer relies on the contracts of these semirings
RELIES = {"C07": ("Entropy", "CrossEntropy", "KLDivergence"), "C08": ("LogSemiring",), "C09": ("MaxSemiring", "KMax"),
          "C20": ("LogSemiring", "StdSemiring"),
          "C22": ("LogSemiring", "Entropy", "CrossEntropy", "KLDivergence", "MaxSemiring", "KMax")}


# queries that differentiate: the operations of these semirings must not cut the autograd graph
GRADIENT = ("C08", "C09", "C22")


def algebra(c, prop):
    return c.props == ["C06"] and c.name.startswith(RELIES.get(prop, ()))


def followed(c):
    """Differentiable answers (C22): the contracts of the values users differentiate, with what is cut from the graph left visible."""
    return c.props[0] in ("C07", "C08", "C13", "C14", "C20") or c.props[0] == "C16" and c.name.startswith("log_prob") or c.props[0] == "C09" and c.name.startswith(("max, argmax", "SentCFG.max", "SentCFG.kmax"))


def support(c, prop):
    """Contracts of other properties that are sufficient, not necessary, for prop."""
    if prop == "C22" and followed(c):
        return True
    if algebra(c, prop):
        return True
    if prop == "C18":
        return framed(c) or c.props == ["C15"] and c.name.endswith(C15_FRAME)
    return prop == "C11" and padded(c)


def select(cs, prop, tier):
    return [c for c in cs if (prop in c.props or support(c, prop)) and (c.tier == "quick" or tier == "thorough")]


def only(prop, c, obs):
    """The obligations of contract c that speak about prop."""
    out = []
    for o in obs:
        fr = " / frame: " in o["name"]
        if (prop in ("C11", "C22") and prop not in c.props or algebra(c, prop)) and not fr:
            out.append(dict(o, status="unknown") if o["status"] == "refuted" else o)
        elif prop == "C18" and "C18" not in c.props:
            if fr:
                out.append(o)
            elif o["name"].rsplit(" / ", 1)[1] in ("no exception", "verification condition generation", "verifier", "all paths explored"):
                out.append(dict(o, status="unknown"))
        elif algebra(c, prop) or prop == "C22":
            pass
        elif not fr or prop == "C18":
            out.append(o)
        elif "module, class" not in o["name"] and "distribution attributes" not in o["name"]:
            out.append(dict(o, status="unknown") if o["status"] == "refuted" else o)
    return out


def run(prop, repo, tier):
    cs = []
    obs = []
    try:
        cs = select(load(), prop, tier)
    except Exception:
        obs.append({"name": "%s / contracts load" % prop, "function": prop, "status": "unknown", "detail": traceback.format_exc()[-3000:],
                    "model": None, "backend": "vt+z3"})
    if not cs:
        return {"obligations": obs}
    budget = BUDGET[tier]
    lean = start_lean(prop)
    ctx = mp.get_context("fork")
    todo = sorted(cs, key=lambda c: -c.weight)
    live = []
    got = {}
    while todo or live:
        while todo and len(live) < JOBS:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(c, repo, budget, b, prop in GRADIENT and support(c, prop)), daemon=True)
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        wait([x[2] for x in live], 0.5)
        for x in list(live):
            c, p, a, t0 = x
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"obligations": [unknown(c, "verifier", "worker process died")]}
            elif time.time() - t0 > budget * 1.5 + 20:
                p.kill()
                r = {"obligations": [unknown(c, "verifier", "time limit of the worker process")]}
            if r is not None:
                got[c.name] = r
                p.join(5)
                live.remove(x)
    res = {"obligations": obs, "contracts": [], "functions": [], "assumptions": [], "bounded": [], "solver_time": 0.0}
    backends = {}
    for c in cs:
        r = got[c.name]
        res["obligations"] += only(prop, c, r["obligations"])
        for f in c.functions:
            if f not in res["functions"]:
                res["functions"].append(f)
        for x in c.assumptions:
            if x not in res["assumptions"]:
                res["assumptions"].append(x)
        for x in r.get("bounded", []):
            if x not in res["bounded"]:
                res["bounded"].append(x)
        res["solver_time"] += r.get("z3_time", 0)
        res["contracts"].append({"contract": c.name, "paths": r.get("paths", 0), "seconds": round(r.get("seconds", 0), 2),
                                 "z3_queries": r.get("z3_queries", 0), "source": r.get("instrumented", {})})
    if lean:
        lobs, secs = finish_lean(prop, lean, budget)
        res["obligations"] += lobs
        res["lean_time"] = round(secs, 2)
        res["assumptions"].append("the recursions restated in lean/%s are the ones of the contract (compared by hand)" % LEMMAS[prop][0])
    for o in res["obligations"]:
        if o["status"] == "proved":
            backends[o.get("backend", "vt+z3")] = backends.get(o.get("backend", "vt+z3"), 0) + 1
    res["backends"] = backends
    res["solver_time"] = round(res["solver_time"], 3)
    res["trusted_base"] = TRUSTED
    return res
