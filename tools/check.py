#!/usr/bin/env python3
"""Decides one property: check.py ID.

Compiles the crate of /repo and the harnesses to LLVM IR, explores every path
of the property's harnesses with the symbolic executor, replays
counterexamples and a sample of paths on the natively compiled crate, and
writes evidence/ID.json. Exit status 0: the property holds for every input
within the bounds; 1: violated; 2: undecided or the machinery failed.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import plan  # noqa: E402

CODES = {"assert": 10, "panic": 11, "alloc": 12}


def fail(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        fail("%s failed:\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def params_text(params):
    return ",".join(str(p) for p in params)


def replay_line(sc, params, inputs):
    limit = sc.get("limits", {}).get("alloc_limit", 1 << 20)
    return "%s\t%s\t%s\t%d\n" % (sc["harness"], params_text(params), " ".join("%s=%s" % kv for kv in inputs.items()), limit)


def native(vreplay, lines, work, timeout=60):
    """Runs the replay program in an empty directory."""
    d = tempfile.mkdtemp(dir=work)
    f = os.path.join(d, "inputs")
    with open(f, "w") as h:
        h.writelines(lines)
    try:
        r = subprocess.run([vreplay, f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout.splitlines()
    except subprocess.TimeoutExpired:
        return "timeout", []


def reproduce(vreplay, v, sc, params, work):
    """Whether the compiled program violates the property on these inputs."""
    line = replay_line(sc, params, v["inputs"])
    tries = 60 if any(k.startswith("hash") for k in v["inputs"]) else 1
    said = "nothing"
    for _ in range(tries):
        code, out = native(vreplay, [line], work, 30)
        said = "status %s %s" % (code, out[-1] if out else "")
        if v["kind"] == "hang":
            if code == "timeout":
                return True, said
        elif v["kind"] in CODES:
            # the native run may fail earlier in another recognised way
            if code in (10, 11, 12):
                return True, said
        elif code in (10, 11, 12) or (isinstance(code, int) and code < 0):
            return True, said
    return False, said


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = sys.argv[2:] or None
    t0 = time.time()
    scenarios = plan.SCENARIOS[prop]
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    try:
        return check(prop, tier, seed, only, t0, scenarios, evidence_dir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, only, t0, scenarios, evidence_dir, work):
    jobs = len(os.sched_getaffinity(0))
    run(["bash", "tools/setup.sh"], cwd=VERIF)
    ir = os.path.join(work, "h.ll")
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run, ["bash", "tools/build_ir.sh", ir], cwd=VERIF)
        b = ex.submit(run, ["bash", "tools/build_replay.sh", os.path.join(work, "vreplay")], cwd=VERIF)
        a.result()
        b.result()
    vreplay = os.path.join(work, "vreplay")
    build_s = time.time() - t0

    with open(os.path.join(VERIF, "known_findings.txt")) as h:
        known = [json.loads(l[6:]) for l in h if l.startswith("known:")]
    known = [k for k in known if k["property"] == prop]
    total = {}
    functions = set()
    runs, violations, seen_known, errors, samples = [], [], [], [], []
    validated = 0
    for sc in scenarios:
        if only and sc["name"] not in only:
            continue
        if tier == "quick" and sc.get("thorough_only"):
            continue
        if violations:
            break
        params = sc["params"]
        if tier == "thorough":
            params = sc.get("thorough", params)
        out = os.path.join(work, "out-" + sc["name"])
        os.makedirs(out)
        s0 = time.time()
        deadline = sc.get("deadline", 300 if tier == "quick" else 3000)
        if tier == "quick":
            deadline = max(10, min(deadline, int(820 - (time.time() - t0))))
        args = ["p%d=%d" % (i, p) for i, p in enumerate(params)]
        args += ["jobs=%d" % sc.get("jobs", jobs), "seed=%d" % seed, "deadline=%d" % deadline, "samples=6"]
        args += ["max_viol=%d" % (1 + 4 * len(known))]
        args += ["%s=%d" % kv for kv in sc.get("limits", {}).items()]
        r = subprocess.run([os.path.join(BUILD, "engine/release/irsym"), ir, ir + ".names", sc["harness"], out] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        where = "%s/%s" % (prop, sc["name"])
        try:
            res = json.load(open(os.path.join(out, "result.json")))
        except (OSError, ValueError):
            errors.append("%s: no result, status %s: %s" % (where, r.returncode, r.stdout[-1500:]))
            continue
        functions.update(res.pop("functions"))
        confirmed = 0
        for n in sorted(os.listdir(out)):
            if n.startswith("viol."):
                v = json.load(open(os.path.join(out, n)))
                ok, said = reproduce(vreplay, v, sc, params, work)
                k = next((k for k in known if k["scenario"] == sc["name"] and k["message"] in v["msg"]
                          and all(v["inputs"].get(a) == b for a, b in k.get("inputs", {}).items())), None)
                if not ok:
                    errors.append("%s: counterexample does not reproduce (%s): %s" % (where, said, json.dumps(v)[:1500]))
                elif k:
                    if k not in seen_known:
                        seen_known.append(k)
                        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
                else:
                    confirmed += 1
                    d = os.path.join(evidence_dir, "replay")
                    os.makedirs(d, exist_ok=True)
                    f = os.path.join(d, "%s-%s-%d.json" % (prop, sc["name"], len(violations)))
                    json.dump({"property": prop, "scenario": sc["name"], "about": sc["about"], "harness": sc["harness"],
                               "params": params, "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"],
                               "stack": v["stack"], "native": said,
                               "replay_input": replay_line(sc, params, v["inputs"])},
                              open(f, "w"), indent=1)
                    violations.append({"scenario": sc["name"], "kind": v["kind"], "message": v["msg"],
                                       "inputs": v["inputs"], "native": said, "replay": f})
                    print("%s: %s: %s (%s)" % (where, v["kind"], v["msg"], said), flush=True)
                    print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)
            elif n.startswith("fatal."):
                v = json.load(open(os.path.join(out, n)))
                errors.append("%s: %s" % (where, json.dumps(v)[:1500]))
        if not confirmed:
            if res["incomplete"] or res["unknown"]:
                errors.append("%s: exploration incomplete (%s) after %.0f s, unknown %s %s" %
                              (where, res["incomplete"], time.time() - s0, res["unknown"], r.stdout[-500:]))
            want = sc.get("reach", 1)
            if res["reach"] & want != want:
                errors.append("%s: vacuous, reached %x of %x" % (where, res["reach"], want))
        # sampled paths: the output predicted by the encoding and the real one
        if not any(v["scenario"] == sc["name"] for v in violations):
            lines, expect = [], []
            for n in sorted(os.listdir(out)):
                if n.startswith("samples."):
                    for l in open(os.path.join(out, n)):
                        s = json.loads(l)
                        lines.append(replay_line(sc, params, s["inputs"]))
                        expect.append(s["emit"])
            lines, expect = lines[:sc.get("samples", 300)], expect[:sc.get("samples", 300)]
            code, got = native(vreplay, lines, work)
            got = [g[3:] if g.startswith("OK ") else g for g in got]
            if sc.get("hash"):
                # the order of the real hash maps differs
                good = code == 0 and len(got) == len(expect)
            else:
                good = code == 0 and got == expect
            if not good:
                i = next((i for i, (x, y) in enumerate(zip(got + ["none"], expect + ["none"])) if x != y), 0)
                errors.append("%s: encoding and program disagree (status %s): %s expected %s got %s" %
                              (where, code, lines[i] if i < len(lines) else "", expect[i][:400] if i < len(expect) else "",
                               got[i][:400] if i < len(got) else ""))
            else:
                validated += len(lines)
                samples += [{"scenario": sc["name"], "inputs": l.strip().split("\t")[-1], "output": e[:200]}
                            for l, e in list(zip(lines, expect))[:2]]
        for k, v in res.items():
            if isinstance(v, int):
                total[k] = max(total.get(k, 0), v) if k.startswith("max_") else total.get(k, 0) + v
        runs.append({"scenario": sc["name"], "harness": sc["harness"], "params": params, "bounds": sc["about"],
                     "paths": res["paths"], "discarded_by_assumptions": res["dead"], "forks": res["forks"],
                     "instructions": res["instructions"], "queries": res["queries"], "unsat": res["unsat"],
                     "sat": res["sat"], "solver_s": round(res["solver_ns"] / 1e9, 3),
                     "complete": not res["incomplete"] and not res["unknown"],
                     "wall_s": round(time.time() - s0, 2)})
        print("%s: %d paths, %d instructions, %d queries, %.1f s" %
              (where, res["paths"], res["instructions"], res["queries"], time.time() - s0), flush=True)

    own = sorted(f for f in functions if "rspolib" in f)
    coverage = {
        "states": total.get("paths", 0),
        "transitions": total.get("instructions", 0),
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "meaning": "states: complete symbolic paths, each standing for every input that follows it; transitions: "
                   "IR instructions executed symbolically; traces_validated: sampled paths whose predicted output "
                   "equals the output of the natively compiled crate",
        "scenarios": runs,
        "forks": total.get("forks", 0),
        "symbolic_branches": total.get("symbolic_branches", 0),
        "branches_with_model_on_both_sides": total.get("quick_sat", 0),
        "solver_queries": total.get("queries", 0),
        "queries_unsat": total.get("unsat", 0),
        "queries_sat": total.get("sat", 0),
        "queries_unknown": total.get("unknown", 0),
        "verdicts_reused": total.get("memo_hits", 0) + total.get("confirm_hits", 0),
        "solver_s": round(total.get("solver_ns", 0) / 1e9, 3),
        "longest_query_s": round(total.get("max_query_ns", 0) / 1e9, 3),
        "functions_encoded": len(functions),
        "functions_of_the_crate": own,
        "build_s": round(build_s, 2),
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": plan.ASSUMPTIONS + plan.OUTSIDE.get(prop, []),
        "violations": len(violations),
        "violation_details": violations,
        "known_findings_seen": [k["what"] for k in seen_known],
        "errors": errors,
        "wall_s": round(time.time() - t0, 2),
    }
    tmp = os.path.join(evidence_dir, ".%s.tmp" % prop)
    with open(tmp, "w") as h:
        json.dump(evidence, h, indent=1)
    os.replace(tmp, os.path.join(evidence_dir, prop + ".json"))
    for e in errors:
        print("CHECK-ERROR:", e, flush=True)
    if violations:
        return 1
    if errors:
        return 2
    print("%s holds within the bounds: %d paths, %d queries, %.1f s" %
          (prop, coverage["states"], coverage["solver_queries"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
