#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property by static analysis of /repo's working tree.

exit 0: held on everything decided; exit 1 + VIOLATION line: a construct breaks it.
What could not be decided is listed as undecided in the evidence and never alarms."""
import argparse
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(pid):
    known = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                parts = dict(x.split("=", 1) for x in line[7:].split(" :: ")[0].split(" ", 1) if "=" in x)
                if parts.get("property") == pid:
                    known[parts["key"].strip()] = line.split(" :: ", 1)[1] if " :: " in line else ""
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from sa.report import Ctx
    from sa.prog import AnchorMissing
    ctx = Ctx(a.pid, a.tier)
    from rules import REGISTRY
    mod, fn = REGISTRY[a.pid]
    t0 = time.time()
    try:
        getattr(importlib.import_module("rules." + mod), fn)(ctx)
        ctx.flush()
    except AnchorMissing as x:
        # the construct this rule starts from is not where it was: nothing can be said about it (not an alarm)
        print(f"UNDECIDED property={a.pid} {x}")
        ctx.ob(None, "anchor", str(x), "", "the construct this rule starts from is gone")
        ctx.flush()
    except SyntaxError as x:
        print(f"ANALYSIS-BROKEN property={a.pid} source does not parse: {x}")
        return 2
    except Exception as x:  # a limit of the analyser: the obligations it did not reach are undecided, never an alarm
        import traceback
        traceback.print_exc(limit=-4)
        print(f"UNDECIDED property={a.pid} analyser error {type(x).__name__}: {x}")
        ctx.ob(None, "analyser", type(x).__name__, "", str(x))
        ctx.flush()
    rows = ctx.summary()
    known = known_findings(a.pid)
    viol, kf = [], []
    for r in rows:
        if r["status"] == "violation":
            (kf if f"{r['rule']}|{r['construct']}" in known else viol).append(r)
    decided = [r for r in rows if r["status"] != "undecided"]
    und = [r for r in rows if r["status"] == "undecided"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": a.pid, "tier": "thorough" if ctx.thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (getattr(ctx, "explanation", "") or "static analysis of the working tree") ,
            "obligations_total": len(rows), "obligations_ok": len(rows) - len(und) - len(viol) - len(kf),
            "obligations_undecided": len(und), "paths_decided": len(ctx.obs), "scenarios": ctx.scen,
            "functions_analysed": len(ctx.analysed), "abstract_steps": ctx.steps,
            "function_list": sorted(ctx.analysed), "obligation_table": rows,
        },
        "assumptions": ctx.assumptions or ["models of the Python standard library and of protobuf/grpc objects in sa/lib.py are faithful"],
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.pid}: {len(rows)} obligations ({len(decided)} decided, {len(und)} undecided), {len(ctx.obs)} path verdicts, "
          f"{len(ctx.analysed)} functions, {ctx.steps} abstract steps, {time.time()-t0:.1f}s")
    if a.v or os.environ.get("VERIF_VERBOSE"):
        for r in rows:
            print("  ", r["status"], r["rule"], "|", r["construct"], "|", r["where"], "|", r["paths"], r["detail"])
    for r in kf:
        print(f"KNOWN-FINDING: property={a.pid} {known[r['rule'] + '|' + r['construct']] or r['construct']}")
    if viol:
        p = os.path.join(HERE, "evidence", a.pid + ".replay.json")
        with open(p, "w") as f:
            json.dump({"property": a.pid, "violations": viol, "rerun": f"python3 {HERE}/check.py {a.pid}"}, f, indent=1, default=str)
        for r in viol:
            print(f"  {r['where']}: [{r['rule']}] {r['construct']}: {r['detail']}")
        print(f"VIOLATION property={a.pid} replay={p}")
        return 1
    if not decided:
        print(f"UNDECIDED property={a.pid} no obligation could be decided")
    return 0


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(60000)
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as x:
            rc.append(x.code)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc and rc[0] is not None else 2)
