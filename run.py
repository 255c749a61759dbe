#!/usr/bin/env python3
"""Decides one property.

  run.py check C01 [--tier quick|thorough]     exit 0 held / 1 VIOLATION / other: error of the check
  run.py replay FILE                           re-executes one recorded execution
  run.py setup                                 builds every harness
"""
import json, os, subprocess, sys, time, shutil, tempfile, concurrent.futures

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "fw"))
sys.dont_write_bytecode = True
import build as B
from specs import HARNESSES, CHECKS

KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == prop:
                out.append(d)
    return out


def run_part(binp, out, params, budget, known, workers, hang):
    cmd = [binp, "--out", out, "--budget", str(budget), "--workers", str(workers), "--hang", str(hang)]
    for k, v in params.items():
        cmd += ["--p", "%s=%s" % (k, v)]
    for k in known:
        cmd += ["--known", k]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:malloc_context_size=8:quarantine_size_mb=16:detect_odr_violation=0:alloc_dealloc_mismatch=0"
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


def replay_once(binp, choices, params, known, hang=120, aux=''):
    with tempfile.NamedTemporaryFile("w", suffix=".choices", delete=False) as f:
        f.write(",".join(map(str, choices)))
        name = f.name
    cmd = [binp, "--replay", name, "--hang", str(hang), "--out", name + ".o"]
    for k, v in params.items():
        cmd += ["--p", "%s=%s" % (k, v)]
    for k in known:
        cmd += ["--known", k]
    if aux:
        cmd += ["--aux", aux]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:alloc_dealloc_mismatch=0:detect_odr_violation=0"
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    os.unlink(name)
    return r


def clean_scratch(tag):
    for n in os.listdir("/tmp"):
        if n.startswith("verifmc." + tag + "."):
            shutil.rmtree("/tmp/" + n, ignore_errors=True)


def check(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    workers = os.cpu_count() or 4
    known = known_findings(prop)
    parts = spec["parts"]
    tot = dict(states=0, transitions=0, executions=0, outcomes=0, pruned=0)
    samples, detail, capped = [], [], False
    known_hits = {}
    violation = None
    tag = os.environ["VERIFMC_TAG"] = os.urandom(6).hex()
    tmp = tempfile.mkdtemp(prefix="verifrun.")
    try:
        for i, part in enumerate(parts):
            h = HARNESSES[part["harness"]]
            binp = B.build(dict(h, name=part["harness"]))
            cfg = part.get(tier, part.get("quick"))
            if cfg is None:
                continue
            if tier == "quick" and part.get("quick") is None:
                continue
            runs = cfg if isinstance(cfg, list) else [cfg]
            for params in runs:
                params = dict(params)
                budget = params.pop("_budget", 240 if tier == "quick" else 3600)
                hang = params.pop("_hang", 60)
                out = os.path.join(tmp, "out%d.json" % len(detail))
                keys = [k["key"] for k in known if k.get("harness", part["harness"]) == part["harness"]]
                r = run_part(binp, out, params, budget, keys, part.get("workers", workers), hang)
                if r.returncode not in (0, 1) or not os.path.exists(out):
                    sys.stderr.write(r.stderr[-4000:])
                    print("ERROR property=%s harness=%s params=%s rc=%d" % (prop, part["harness"], params, r.returncode))
                    return 2
                d = json.load(open(out))
                for k in ("states", "transitions", "executions", "outcomes", "pruned"):
                    tot[k] += d[k]
                capped |= d["capped"]
                for s in d["samples"]:
                    if len(samples) < 8:
                        samples.append({"harness": part["harness"], "params": params, "operations": s.strip().split("\n")[:60]})
                detail.append({"harness": part["harness"], "params": params, "executions": d["executions"], "transitions": d["transitions"],
                               "states": d["states"], "distinct_outcomes": d["outcomes"], "longest_choice_sequence": d["max_choices"],
                               "time_capped": d["capped"], "wall_s": d["wall_s"], "bound": part.get("bound", "")})
                for k, v in d["known"].items():
                    known_hits[k] = known_hits.get(k, 0) + v
                if d.get("violation"):
                    v = d["violation"]
                    ok = False
                    for attempt in range(3):
                        rr = replay_once(binp, v["choices"], params, keys, hang=300 if v["key"] == "hang" else 120, aux=v.get("aux", ""))
                        if rr.returncode == 1:
                            ok = True
                            break
                    if not ok:
                        print("ERROR property=%s: the recorded execution did not fail again when replayed (harness %s): %s: %s" % (prop, part["harness"], v["key"], v["msg"]))
                        print(rr.stdout[-3000:])
                        return 2
                    violation = dict(property=prop, harness=part["harness"], params=params, key=v["key"], message=v["msg"],
                                     choices=v["choices"], aux=v.get("aux", ""), trace=v["trace"].split("\n"), known=keys,
                                     replay="python3 /verif/run.py replay <this file>")
                    break
                if part.get("min_outcomes") and d["outcomes"] < part["min_outcomes"]:
                    print("ERROR property=%s harness=%s: only %d distinct outcomes (vacuous exploration?)" % (prop, part["harness"], d["outcomes"]))
                    return 2
            if violation:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        clean_scratch(tag)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["executions"],
            "distinct_outcomes": tot["outcomes"],
            "pruned_executions": tot["pruned"],
            "samples": samples, "exhaustive": (not capped) and violation is None,
            "parts": detail,
            "explanation": "Every execution ran the repository's own code; states are distinct abstract states of the reference model (with the observation made of the code), transitions are operations applied to the code, traces are complete executions.",
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if known_hits.get(k["key"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, violation["harness"]))
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("%s: %s" % (violation["key"], violation["message"][:1500]))
        print("operations:")
        for l in violation["trace"][-40:]:
            print("  " + l)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("property=%s held: %d executions, %d transitions, %d states, %d outcomes, %s, %.1f s" % (
        prop, tot["executions"], tot["transitions"], tot["states"], tot["outcomes"], "time-capped" if capped else "exhaustive within the bounds", time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        for n, h in HARNESSES.items():
            B.build(dict(h, name=n))
        return 0
    if a[0] == "replay":
        v = json.load(open(a[1]))
        binp = B.build(dict(HARNESSES[v["harness"]], name=v["harness"]))
        r = replay_once(binp, v["choices"], v["params"], v.get("known", []), aux=v.get("aux", ""))
        print(r.stdout)
        return r.returncode
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "build":
        for n in a[1:]:
            print(B.build(dict(HARNESSES[n], name=n), quiet=False))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
