# -*- coding: utf-8 -*-
"""
check driver:  run.py PROPERTY [--tier quick|thorough]
               run.py --replay FILE
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
os.environ.setdefault("PYTHONHASHSEED", "0")

from symx import engine  # noqa: E402

CPUS = max(2, min(8, os.cpu_count() or 2))


def load(prop):
    d = os.path.join(ROOT, "harness")
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("harness." + f[:-3])
    raise SystemExit("no harness for " + prop)


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def quiet():
    """stdout of notebook cells goes nowhere."""
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("SYMX_STDERR"):
        os.dup2(dn, 2)


def do_replay(path, profile=False):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec["property"])
    h = {x.name: x for x in mod.HARNESSES}[rec["harness"]]
    saved = os.dup(1)
    quiet()
    funcs = set()
    if h.setup:
        h.setup()
    if profile:
        prefix = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "core", "ipyflow") + os.sep

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(prefix):
                    funcs.add(co.co_filename[len(prefix):] + ":" + co.co_qualname)

        # setprofile coexists with the settrace based tracer of the code under test
        sys.setprofile(prof)

    def report(fails):
        res = {"failures": fails, "functions": sorted(funcs)}
        os.write(saved, ("\n@@REPLAY " + json.dumps(res) + "\n").encode())
        os._exit(1 if fails else 0)

    try:
        fails = engine.replay(h.fn, rec["model"], rec.get("params"), on_hang=report)
    finally:
        sys.setprofile(None)
    report(fails)


def spawn_replay(path, profile=False, timeout=120):
    cmd = [sys.executable, os.path.abspath(__file__), "--replay", path]
    if profile:
        cmd.append("--profile")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"failures": [{"kind": "violation", "label": "hang", "sig": "hang", "detail": "replay did not terminate"}], "functions": []}
    for line in p.stdout.decode(errors="replace").splitlines():
        if line.startswith("@@REPLAY "):
            return json.loads(line[len("@@REPLAY "):])
    return {"failures": None, "functions": [], "err": p.stderr.decode(errors="replace")[-800:]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--profile", action="store_true")
    ap.add_argument("--only", help="run only this harness (debugging)")
    ap.add_argument("--show", action="store_true", help="print details (debugging)")
    ap.add_argument("--workers", type=int, default=CPUS)
    args = ap.parse_args()
    if args.replay:
        do_replay(args.replay, args.profile)
    tier = "thorough" if args.tier == "thorough" else "quick"
    prop = args.property
    t0 = time.time()
    mod = load(prop)
    scratch = tempfile.mkdtemp(prefix="symx-%s-" % prop)
    os.environ["IPYTHONDIR"] = os.path.join(scratch, "ipython")
    cexdir = os.path.join(ROOT, "evidence", "cex")
    os.makedirs(cexdir, exist_ok=True)
    for f in os.listdir(cexdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(cexdir, f))
    known = known_findings(prop)
    known_sigs = {(hn, k["sig"]) for k in known
                  for hn in ([h.name for h in mod.HARNESSES] if k["harness"] == "*" else [k["harness"]])}
    violations, problems, per_h = [], [], []
    functions = set()
    samples = []
    tot = {k: 0 for k in engine.Stats.FIELDS}
    tot_solver = 0.0
    try:
        for h in mod.HARNESSES:
            if args.only and h.name != args.only:
                continue
            if tier == "quick" and h.thorough_only:
                continue
            params = h.thorough if tier == "thorough" else h.quick
            limit = h.limit_thorough if tier == "thorough" else h.limit_quick
            if tier == "quick":
                limit = max(20.0, min(limit, 700 - (time.time() - t0)))
            res = explore_harness(h, params, limit, scratch, args,
                                  {sig for hn, sig in known_sigs if hn == h.name})
            for k in tot:
                tot[k] += res[k]
            tot_solver += res["solver_s"]
            info = {"harness": h.name, "bounds": h.bounds(params) if callable(h.bounds) else h.bounds,
                    "outside": h.outside, "params": params, "paths": res["paths"],
                    "pruned": res["pruned"], "queries": res["queries"], "unsat": res["unsat"],
                    "sat": res["sat"], "solver_s": round(res["solver_s"], 3),
                    "asserts": res["asserts"], "asserts_decided_by_query": res["asserts_solver"],
                    "asserts_constant_on_path": res["asserts_const"],
                    "exhausted": not res["truncated"], "wall_s": round(res["wall_s"], 2),
                    "labels": res["labels"]}
            # 1. violations, grouped by signature; replay until one reproduces
            by_sig = {}
            for v in res["violations"]:
                by_sig.setdefault(v["sig"], []).append(v)
            confirmed_here = 0
            for sig, vs in by_sig.items():
                if (h.name, sig) in known_sigs:
                    continue
                ok = False
                vs = [v for v in vs if v["model"] is not None]
                vs.sort(key=lambda v: (len(v["notes"]), len(json.dumps(v["model"]))))
                if confirmed_here >= 5:
                    break
                for i, v in enumerate(vs[:4]):
                    p = os.path.join(cexdir, "%s-%s-%d.json" % (prop, h.name, len(violations)))
                    with open(p, "w") as f:
                        json.dump({"property": prop, "harness": h.name, "params": params,
                                   "model": v["model"], "label": v["label"], "sig": v["sig"],
                                   "detail": v["detail"], "notes": v["notes"]}, f, indent=1)
                    r = spawn_replay(p)
                    reps = [f for f in (r["failures"] or []) if f["kind"] == "violation"
                            and (h.name, f["sig"]) not in known_sigs]
                    if reps:
                        ok = True
                        confirmed_here += 1
                        violations.append((h.name, v, p))
                        break
                    os.unlink(p)
                if not ok:
                    problems.append("%s: counterexample(s) for %r did not reproduce on the real code: %s"
                                    % (h.name, sig, (vs[0]["detail"] if vs else "no model")[-1200:]))
            # 2. everything that makes the verdict inconclusive
            for u in res["unsupported"][:3]:
                problems.append("%s: not encodable: %s\n%s" % (h.name, u["what"], u["tb"] if args.show else ""))
            for u in res["crashes"][:3]:
                problems.append("%s: explorer crash: %s" % (h.name, u))
            if res["truncated"] and not confirmed_here:
                problems.append("%s: exploration did not finish within its limit" % h.name)
            if not [v for v in res["violations"] if (h.name, v["sig"]) not in known_sigs]:
                for lb in h.must_reach:
                    if not res["labels"].get(lb) and not res["truncated"]:
                        problems.append("%s: vacuous, %r was never reached" % (h.name, lb))
                if res["paths"] == 0:
                    problems.append("%s: no feasible path" % h.name)
            # 3. witnesses: completed paths re-run concretely on the real code, with a profile of
            #    the functions of /repo they execute
            nw = 0
            for i, w in enumerate(res["witnesses"][: h.n_witness]):
                p = os.path.join(scratch, "w-%s-%d.json" % (h.name, i))
                with open(p, "w") as f:
                    json.dump({"property": prop, "harness": h.name, "params": params, "model": w["model"]}, f)
                samples.append({"harness": h.name, "model": w["model"], "trace": w["notes"]})
                r = spawn_replay(p, profile=True)
                functions.update(r["functions"])
                fl = r["failures"]
                if fl is None:
                    problems.append("%s: witness replay gave no answer: %s" % (h.name, r.get("err", "")[-300:]))
                elif [x for x in fl if (h.name, x.get("sig")) not in known_sigs] and not by_sig:
                    problems.append("%s: a path the solver accepted fails concretely: %s" % (h.name, str(fl[0])[:600]))
                else:
                    nw += 1
            info["witnesses_replayed"] = nw
            per_h.append(info)
            if args.show:
                print(json.dumps(info, indent=1), flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"] + tot["forks"],
            "traces_validated_against_impl": sum(i["witnesses_replayed"] for i in per_h),
            "samples": samples or ["-"],
            "rule": "states: feasible paths of the real code followed to their end (pairwise distinct path conditions); transitions: symbolic branch points decided by the solver; each assertion is decided for all values of the symbolic inputs that follow its path",
            "assertions": tot["asserts"],
            "assertions_decided_by_query": tot["asserts_solver"],
            "exhaustive": not problems,
            "bounds": {i["harness"]: i["bounds"] for i in per_h},
            "outside_bounds": {i["harness"]: i["outside"] for i in per_h},
            "functions_encoded": sorted(functions),
            "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"],
            "solver_s": round(tot_solver, 3),
            "harnesses": per_h,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "the fork-based symbolic executor (symx/engine.py), z3 and CPython are trusted",
            "stub: traceback rendering of the shell (display only) is replaced by a no-op",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "problems": problems,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for hname, v, p in violations:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  harness=%s label=%s sig=%s" % (hname, v["label"], v["sig"]))
        for n in v["notes"]:
            print("    | " + n.replace("\n", "\n    |   "))
        print("    " + v["detail"].replace("\n", "\n    "))
    print("%s [%s]: %d paths, %d queries (%d unsat), %.1fs solver, %.1fs wall, %d violation(s), %d problem(s)"
          % (prop, tier, tot["paths"], tot["queries"], tot["unsat"], tot_solver, wall, len(violations), len(problems)))
    for p in problems:
        print("  INCONCLUSIVE " + p)
    if violations:
        return 1
    return 2 if problems else 0


def explore_harness(h, params, limit, scratch, args, known_sigs):
    wd = os.path.join(scratch, h.name)

    def setup():
        quiet()
        if h.setup:
            h.setup()

    return engine.explore(h.fn, workers=args.workers, timeout_s=limit, workdir=wd,
                          params=params, setup=setup, known_sigs=known_sigs)


if __name__ == "__main__":
    sys.exit(main())
