#!/opt/venv/bin/python
"""Entry point of every check:  run.py P01 [--replay FILE] [--tier quick|thorough]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"

if __name__ == "__main__" and (
    os.environ.get("PYTHONHASHSEED") != os.environ.get("VERIF_CHILD_HASHSEED", "0")
    or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")
):
    os.environ["PYTHONHASHSEED"] = os.environ.get("VERIF_CHILD_HASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(VENV_PY, [VENV_PY, "-W", "ignore"] + sys.argv)

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONWARNINGS"] = "ignore"
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
# Hypothesis comes from the pre-installed tooling; appended so that the project's
# own dependencies keep precedence.
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)


def main():
    import argparse
    import json
    import subprocess
    import tempfile
    import time
    import shutil
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--child", help="run one case for a parent check, printing what it observed")
    args = ap.parse_args()

    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = "thorough" if args.tier == "thorough" else "quick"

    from hv import core

    import hyperreal

    got = os.path.realpath(os.path.dirname(hyperreal.__file__))
    want = os.path.realpath(os.path.join(REPO, "hyperreal"))
    if got != want:
        print(f"harness error: imported hyperreal from {got}, not {want}", file=sys.stderr)
        return 2

    if args.child:
        mod = core.load_prop(args.prop)
        env = core.Env(args.prop, tier, seed, 0)
        try:
            mod.child(args.child, env)
        finally:
            env.end_case()
            env.close()
        return 0

    if args.replay:
        with open(args.replay) as f:
            saved = json.load(f)
        mod = core.load_prop(args.prop)
        env = core.Env(args.prop, tier, seed, 0)
        try:
            sub = core.sub_by_name(mod, saved["sub"])
            info, failure = core.run_case(sub, saved["case"], env)
        finally:
            env.close()
        if failure is None:
            print(f"replay passed: {info}")
            return 0
        print(failure[2])
        known = {k["key"] for k in core.load_known(args.prop)}
        if failure[1] is not None and failure[1] in known:
            print(f"KNOWN-FINDING: property={args.prop} {failure[1]}")
            return 0
        print(failure[0])
        print(f"VIOLATION property={args.prop} replay={args.replay}")
        return 1

    if args.shard is not None:
        core.shard_main(
            args.prop, tier, seed, args.shard, args.shards, args.out, args.budget
        )
        return 0

    start = time.monotonic()
    budget = args.budget or (200.0 if tier == "quick" else 2400.0)
    hard = 820.0 if tier == "quick" else budget + 900.0
    work = tempfile.mkdtemp(prefix=f"hv-run-{args.prop}-")
    procs = []
    try:
        for s in range(args.shards):
            out = os.path.join(work, f"{s}.json")
            log = open(os.path.join(work, f"{s}.log"), "w")
            procs.append(
                (
                    s,
                    out,
                    subprocess.Popen(
                        [
                            sys.executable, "-W", "ignore", os.path.abspath(__file__),
                            args.prop, "--tier", tier, "--shard", str(s),
                            "--shards", str(args.shards), "--out", out,
                            "--budget", str(budget),
                        ],
                        stdout=log,
                        stderr=subprocess.STDOUT,
                        start_new_session=True,
                    ),
                )
            )
        results, errors = [], []
        for s, out, p in procs:
            left = max(1.0, hard - (time.monotonic() - start))
            try:
                p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                errors.append(f"shard {s}: no result within {hard:.0f} s")
                continue
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append((s, r))
                if r["error"]:
                    errors.append(f"shard {s}: {r['error']}")
            else:
                with open(os.path.join(work, f"{s}.log")) as f:
                    errors.append(f"shard {s} died (status {p.returncode}): {f.read()[-3000:]}")
    finally:
        for _, _, p in procs:
            # the whole session: pool workers of a shard end with it
            try:
                os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                p.wait(timeout=10)
            except Exception:
                pass
        shutil.rmtree(work, ignore_errors=True)

    # merge
    evaluations = sum(r["evaluations"] for _, r in results)
    nontrivial = set()
    labels, per_sub, hits, seconds = {}, {}, {}, {}
    samples = []
    for _, r in results:
        nontrivial |= set(r["nontrivial"])
        for src, dst in (
            (r["labels"], labels), (r["per_sub"], per_sub),
            (r["known_hits"], hits), (r["sub_seconds"], seconds),
        ):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for smp in r["samples"]:
            if sum(1 for x in samples if x["sub"] == smp["sub"]) < 1:
                samples.append(smp)
    mod = core.load_prop(args.prop)
    failures = sorted(
        ((len(core.canonical(r["failure"]["case"])), s, r["failure"]) for s, r in results if r["failure"]),
        key=lambda t: t[:2],
    )
    wall = time.monotonic() - start
    evidence = {
        "property": args.prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "cases_per_subcheck": per_sub,
            "cpu_seconds_per_subcheck": {k: round(v, 1) for k, v in seconds.items()},
            "labels": dict(sorted(labels.items())),
            "known_finding_hits": hits,
            "time_budget_cut": any(r["budget_hit"] for _, r in results),
            "shards": args.shards,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{args.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")

    for k in core.load_known(args.prop):
        if hits.get(k["key"]):
            print(f"KNOWN-FINDING: property={args.prop} {k['what']}")

    if failures:
        _, s, fail = failures[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{args.prop}-{fail['sub']}-seed{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": args.prop, **fail}, f, indent=1)
        print(f"sub-check {fail['sub']}: {fail['message']}")
        print("case: " + core.short(core.canonical(fail["case"]), 2000))
        print(f"VIOLATION property={args.prop} replay={path}")
        return 1
    if errors:
        print("harness error: " + errors[0][:4000], file=sys.stderr)
        if len(errors) > 1:
            print(f"(and {len(errors) - 1} more shards with errors)", file=sys.stderr)
        return 2
    print(
        f"{args.prop} held: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {wall:.1f} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
