#!/usr/bin/env python3
"""Entry point of every check:  python3-vt check.py <property>.

1. the deductive verifier discharges the obligations of the property's contracts against the current /repo source;
2. the same contracts are evaluated at run time on the real code with real torch (concrete counterexample search);
3. evidence/<property>.json is rewritten; exit 0 (held) or 1 (VIOLATION line printed).
"""
import ast
import glob
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIZE = {"C06": 4000, "C15": 3000, "C18": 700, "C10": 700, "C12": 2000, "C13": 2000, "C14": 2000, "C16": 2000, "C17": 2000, "C19": 3000}
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def factored(cs):
    """Contracts with the executed files and functions listed once."""
    files, sets, out = {}, [], []
    for c in cs:
        src = c.get("source") or {}
        files.update(src.get("files", {}))
        fns = src.get("functions", [])
        if fns not in sets:
            sets.append(fns)
        out.append(dict({k: v for k, v in c.items() if k != "source"}, executed=sets.index(fns)))
    every = sorted(set.intersection(*[set(f) for f in sets if f])) if any(sets) else []
    return {"contracts": out, "executed_files": files, "executed_by_every_contract": every,
            "executed": [sorted(set(f) - set(every)) for f in sets]}


def grouped(names):
    out = {}
    for n in names:
        a, _, b = n.partition(" / ")
        out.setdefault(a, []).append(b)
    return out


def mined():
    """Integer constants of the source: sizes at which the code could change its behaviour."""
    out = set()
    for f in glob.glob(os.path.join(REPO, "torch_struct", "**", "*.py"), recursive=True):
        try:
            t = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) is int and 3 <= n.value <= 130:
                out.add(n.value)
    return sorted(out)


def known_findings(prop):
    p = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(p):
        return []
    return [l.strip() for l in open(p) if l.startswith("known: property=%s " % prop)]


def start_runtime(prop, hints, seed, tier, tag=""):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    hf = os.path.join(d, ".hints-%s%s.json" % (prop, tag))
    json.dump(hints, open(hf, "w"))
    n, budget = (SIZE.get(prop, 1200), 40) if tier == "quick" else (6 * SIZE.get(prop, 1200), 400)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    cmd = [PY, os.path.join(HERE, "replay", "run.py"), prop, "--seed", str(seed), "--n", str(n),
           "--budget", str(budget), "--hints", hf, "--shapes"]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=HERE), hf


def finish_runtime(ph):
    p, hf = ph
    out, err = p.communicate()
    try:
        os.remove(hf)
    except OSError:
        pass
    for line in reversed(out.strip().split("\n")):
        if line.startswith("{"):
            return json.loads(line)
    return {"error": (err or out)[-3000:], "evaluations": 0, "failures": [], "samples": []}


def write_replay(prop, body, tag):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, tag))
    json.dump(body, open(p, "w"), indent=1)
    return p


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ints = mined()
    ph = start_runtime(prop, {"ints": ints}, seed, tier)
    proof = None
    try:
        from vt import driver
        proof = driver.run(prop, REPO, tier)
    except Exception:
        proof = {"obligations": [], "error": traceback.format_exc()}
    rt = finish_runtime(ph)
    open_ = [o for o in (proof or {}).get("obligations", []) if o["status"] != "proved"]
    extra = None
    if open_ and not rt["failures"] and "error" not in rt:
        models = [o["model"] for o in open_ if o.get("model")]
        extra = finish_runtime(start_runtime(prop, {"ints": ints, "models": models}, seed + 1000, tier, "x"))
        rt["failures"] += extra["failures"]
    viol = 0
    if rt["failures"]:
        f = rt["failures"][0]
        p = write_replay(prop, {"property": prop, "case": f["case"], "observed": f["message"],
                                "failed_obligations": [{k: o.get(k) for k in ("name", "function", "status", "detail")} for o in open_][:10],
                                "reproduce": "%s replay/run.py --replay <this file>" % PY}, "input")
        print("failing input: %s\n  %s" % (json.dumps(f["case"]), f["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        viol = 1
    refuted = [o for o in open_ if o["status"] == "refuted"]
    if not viol and refuted:
        p = write_replay(prop, {"property": prop, "failed_obligations": refuted[:10]}, "obligation")
        for o in refuted[:5]:
            print("refuted obligation %s (%s): %s" % (o["name"], o.get("function"), str(o.get("detail"))[:500]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        viol = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "wall_s": round(time.time() - t0, 2), "violations": viol}
    runs = rt["evaluations"] + (extra or {}).get("evaluations", 0)
    shapes = set(rt.get("shapes", [])) | set((extra or {}).get("shapes", []))
    runtime = {"evaluations": runs, "distinct_nontrivial": len(shapes),
               "rule": "evaluations: generated cases whose whole contract was evaluated on the real code against an independent oracle "
                       "(cases too large for the oracle are not counted); distinct_nontrivial: those cases that differ in more than "
                       "their random values (operation, sizes, lengths, options) and have some size above one",
               "samples": rt["samples"]}
    if proof and proof.get("contracts"):
        obs = proof["obligations"]
        ev["level"] = "proof"
        ev["coverage"] = dict(
            obligations=len(obs), discharged=sum(o["status"] == "proved" for o in obs),
            checker_cmd="python3-vt check.py %s" % prop, trusted_base=proof["trusted_base"],
            functions_under_contract=proof["functions"], backends=proof["backends"], solver_time_s=proof["solver_time"], lean_time_s=proof.get("lean_time"),
            bounded=proof["bounded"], open=[{k: o.get(k) for k in ("name", "function", "status", "detail")} for o in open_],
            **factored(proof["contracts"]), proved_obligations=grouped(o["name"] for o in obs if o["status"] == "proved"),
            evaluations=runs, distinct_nontrivial=len(shapes), samples=rt["samples"])
        ev["assumptions"] = proof["assumptions"]
    else:
        ev["level"] = "exploration"
        ev["coverage"] = runtime
        ev["assumptions"] = ["bounded: run-time contract evaluation only, nothing proved for this property on this run"]
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k[len("known: "):])
    if viol:
        sys.exit(1)
    for o in open_[:10]:
        print("open obligation (not decided, no failing input found): %s (%s)" % (o["name"], o.get("function")))
    if "error" in rt:
        print("runtime harness error:\n" + rt["error"])
        sys.exit(3)
    if proof and "error" in proof:
        print("verifier error (nothing proved on this run):\n" + proof["error"])
    if rt["evaluations"] == 0:
        print("nothing evaluated")
        sys.exit(5)
    print("%s: %d cases%s, %.1fs" % (prop, runs, ", %d/%d obligations" % (ev["coverage"]["discharged"], ev["coverage"]["obligations"])
                                     if ev["level"] == "proof" else "", time.time() - t0))


if __name__ == "__main__":
    main()
