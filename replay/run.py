"""Concrete runner (real torch, real code).

  run.py PROPERTY --budget S --seed N [--hints FILE] [--n MIN]   prints one JSON line
  run.py --replay FILE                                             re-runs one recorded case, exit 1 if it still fails
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.filterwarnings("ignore")


def runners():
    from replay import structs, algebra, misc
    r = {}
    for m in (structs, algebra, misc):
        for k, v in vars(m).items():
            if k.startswith("run_"):
                r[k[4:]] = v
    return r


# runs that only ask distributions, whose answers may not depend on the ambient gradient mode
QUERIES = ("best", "marginals", "sample", "gumbel", "info", "count", "logprob", "beam", "tempmax", "swor", "pure")


def run_one(case):
    """None if the contract holds, else a message."""
    from replay.structs import Bad, Skip
    import torch
    torch.manual_seed(case.get("seed", 0))
    try:
        with torch.set_grad_enabled(not (case.get("nograd", False) and case["run"] in QUERIES)):
            runners()[case["run"]](case)
        return None
    except Skip:
        return "SKIP"
    except Bad as e:
        return str(e)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if "torch_struct" in f.filename), None)
        if where is None:
            return "raised outside torch_struct: " + "".join(traceback.format_exception(e))[-1500:]
        return "raised %s: %s (at %s:%d)" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)


def shape_of(case):
    """Configuration of a case without its random values; None when every size in it is at most one."""
    def big(x):
        if isinstance(x, dict):
            return any(big(v) for k, v in x.items() if k != "seed")
        if isinstance(x, (list, tuple)):
            return any(big(v) for v in x)
        return isinstance(x, int) and not isinstance(x, bool) and x > 1
    return json.dumps({k: v for k, v in case.items() if k not in ("seed", "kind")}, sort_keys=True) if big(case) else None


def _work(args):
    i, case = args
    t = time.time()
    return i, run_one(case), time.time() - t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--hints")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--replay")
    ap.add_argument("--shapes", action="store_true")
    ap.add_argument("--maxfail", type=int, default=3)
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        m = run_one(d["case"])
        print(json.dumps({"case": d["case"], "message": m}))
        sys.exit(1 if m else 0)
    from replay.cases import GEN
    hints = json.load(open(a.hints)) if a.hints else {}
    t0 = time.time()
    rnd = random.Random(a.seed * 7919 + 13)
    cases = GEN[a.prop](rnd, hints, a.n)
    uniq, seen = [], set()
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    import torch  # noqa: preload before forking
    import torch_struct  # noqa
    done, fails, slow = 0, [], (0, None)
    ran = []
    with mp.get_context("fork").Pool(a.jobs) as pool:
        for i, m, dt in pool.imap_unordered(_work, list(enumerate(uniq)), chunksize=2):
            if m == "SKIP":
                continue
            done += 1
            ran.append(i)
            if dt > slow[0]:
                slow = (dt, uniq[i])
            if m:
                fails.append({"case": uniq[i], "message": m})
                if len(fails) >= a.maxfail:
                    pool.terminate()
                    break
            if time.time() - t0 > a.budget:
                pool.terminate()
                break
    ran.sort()
    shapes = {shape_of(uniq[i]) for i in ran} - {None}
    print(json.dumps({"evaluations": done, "shapes": sorted(shapes) if a.shapes else len(shapes), "planned": len(uniq), "failures": fails, "wall": time.time() - t0,
                      "slowest": slow, "samples": [uniq[i] for i in ran[:: max(1, len(ran) // 4)][:5]],
                      "torch_struct": os.path.dirname(torch_struct.__file__)}))


if __name__ == "__main__":
    main()
