#!/usr/bin/env python3
"""Runs the check of one property.

  run.py C01 [--tier quick|thorough] [--count N] [--shards N]
  run.py C01 --replay FILE

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def _bootstrap():
    """Re-exec under the repository's interpreter with a clean, deterministic setup."""
    if os.environ.get("VERIF_BOOT") == "1":
        return
    env = dict(os.environ)
    env["VERIF_BOOT"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    # a directory that never exists: no stale bytecode can stand in for a source
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent/verif-pycache"
    env["TZ"] = "UTC"
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONOPTIMIZE"):
        env.pop(k, None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__), *sys.argv[1:]], env)


def main(argv):
    import argparse
    import importlib
    import json
    import resource
    import time

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--count", type=int)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    sys.path.insert(0, "/repo")
    sys.path.insert(0, HERE)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    from lib import engine

    try:
        import snuba_sdk

        if not os.path.abspath(snuba_sdk.__file__).startswith("/repo/"):
            raise RuntimeError(f"imported {snuba_sdk.__file__}")
        prop = importlib.import_module(f"props.{args.prop.lower()}")
    except Exception:
        import traceback

        traceback.print_exc()
        print(f"ERROR property={args.prop}: cannot load the SDK or the check")
        return 2

    t0 = time.time()
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        engine.set_time_zone(rep.get("shard", 0))
        if rep["mode"] == "run":
            import tempfile

            out = tempfile.mktemp()
            engine.shard_main(
                prop, rep["seed"], rep["shard"], rep["index"] + 1, t0 + 3600, out
            )
            with open(out) as f:
                fail = json.load(f)["fail"]
            os.unlink(out)
            r = fail and {"kind": fail["kind"], "message": fail["message"]}
        else:
            r = engine.run_sequence(prop, rep["specs"])
        if r is None:
            print(f"replay of {args.replay}: the property holds")
            return 0
        print(r["message"])
        if r["kind"] != "violation":
            return 2
        print(f"VIOLATION property={prop.ID} replay={os.path.abspath(args.replay)}")
        return 1

    count = args.count or prop.COUNT[args.tier]
    cap = 420 if args.tier == "quick" else 3300
    results, wall = engine.run_property(
        prop, args.tier, args.seed, count, args.shards, cap
    )

    keys = set()
    labels = {}
    samples = []
    for r in results:
        keys.update(r["keys"])
        samples.extend(r["samples"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    fails = [r["fail"] for r in results if r["fail"]]
    viol = [f for f in fails if f["kind"] == "violation"]
    hard = [f for f in fails if f["kind"] != "violation"]

    extra_lines = []
    extra_viol = []
    if hasattr(prop, "extra"):
        # deterministic side checks (enumerations, subprocess runs): yields violations
        r = engine.fork_run(
            lambda: prop.extra(args.tier, args.seed), timeout=600.0
        )
        if r is None:
            hard.append({"message": "side checks crashed", "kind": "harness"})
        else:
            extra_lines = r.get("notes", [])
            extra_viol = r.get("violations", [])
            for k, v in r.get("counts", {}).items():
                labels[k] = labels.get(k, 0) + v

    known_lines = []
    if hasattr(prop, "known_findings"):
        listed = []
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith(f"known: property={prop.ID} "):
                    listed.append(line[len("known: ") :])
        present = engine.fork_run(prop.known_findings)
        for tag in present or []:
            for line in listed:
                if f"[{tag}]" in line:
                    known_lines.append(f"KNOWN-FINDING: {line}")

    violations = []
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    if viol:
        # the failure with the fewest choices is the cheapest to shrink
        viol.sort(key=lambda f: (len(f["choices"]), f["shard"]))
        rep = engine.minimise(prop, viol[0], args.seed)
        rep["property"] = prop.ID
        rep["shard"] = viol[0]["shard"]
        path = os.path.join(rdir, f"{prop.ID}.json")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        violations.append((path, rep["message"]))
    for n, v in enumerate(extra_viol):
        path = os.path.join(rdir, f"{prop.ID}-extra{n}.json")
        with open(path, "w") as f:
            json.dump(
                {"mode": "spec", "specs": [v["spec"]], "message": v["message"]}, f
            )
        violations.append((path, v["message"]))

    evaluations = sum(r["evaluations"] for r in results)
    evidence = {
        "property": prop.ID,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": prop.RULE,
            "samples": samples[:8],
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            "cases_from_coverage_guided_mutation": sum(r["mutated"] for r in results),
            "cases_dropped_as_too_large": sum(r["dropped"] for r in results),
            "sdk_branches_and_lines_reached_per_shard": [
                r["branches"] for r in results
            ],
            "stopped_early_by_time_cap": sum(
                1 for r in results if r["inconclusive"]
            ),
            "shards": args.shards,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if extra_lines:
        evidence["coverage"]["side_checks"] = extra_lines
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop.ID}.json"))

    for line in known_lines:
        print(line)
    print(
        f"{prop.ID}: {evaluations} cases, {len(keys)} distinct non-trivial, "
        f"{time.time() - t0:.1f}s"
    )
    if violations:
        for path, msg in violations:
            print(msg[:4000])
            print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    if hard:
        print(hard[0]["message"][:6000])
        print(f"ERROR property={prop.ID}: the check itself failed")
        return 2
    return 0


if __name__ == "__main__":
    _bootstrap()
    try:
        code = main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        code = 2
    sys.exit(code)
