"""main.py - command line of the checks"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import zlib

from . import core

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known-findings.txt")

QUICK_BUDGET = 240.0  # s; generation stops there (never reached on an idle box)
THOROUGH_BUDGET = 1500.0


def load_findings(pid):
    """open findings of a property: id -> text"""
    res = {}
    with open(FINDINGS, encoding="utf-8") as f:
        for line in f:
            if line.startswith("open: "):
                parts = line[len("open: ") :].strip().split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                kid = parts[1].split("=", 1)[1]
                if prop == pid:
                    res[kid] = parts[2]
    return res


def load_regressions(pid):
    path = os.path.join(ROOT, "regressions", f"{pid}.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return json.load(f)


def write_replay(pid, sub, case, message, before=()):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{sub}-{core.case_hash(case)}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": pid,
                "sub": sub,
                "case": case,
                "message": message,
                "before": list(before),
                "how": f"python3 /verif/run.py {pid} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


_STATE = {}


def _work(t):
    sub_name, seed, n = t
    sub = _STATE["prop"].sub(sub_name)
    return core.task(sub, seed, n, _STATE["known"], _STATE["deadline"])


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)

    if args.setup:
        # nothing is built: the tools are vendored and the package is imported from
        # its sources; make sure that both can be loaded
        import hypothesis
        import momlevel

        print(f"hypothesis {hypothesis.__version__}, momlevel from {momlevel.__file__}")
        return 0
    if not args.prop:
        ap.error("a property id is needed")

    t0 = time.time()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    pid = args.prop

    import dask

    dask.config.set(scheduler="synchronous")
    import momlevel

    src = os.path.dirname(os.path.abspath(momlevel.__file__))
    if src != "/repo/src/momlevel":
        print(f"error: momlevel was imported from {src}")
        return 2

    prop = importlib.import_module(f"harness.props.{pid.lower()}").PROP
    findings = load_findings(pid)
    known = set(findings)

    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            rep = json.load(f)
        for earlier in rep.get("before", []):
            try:
                core.run_case(prop.sub(rep["sub"]), earlier, known)
            except core.Violation:
                pass
        try:
            rec = core.run_case(prop.sub(rep["sub"]), rep["case"], known)
        except core.Violation as v:
            print(f"{rep['sub']}: {v}")
            print(f"VIOLATION property={pid} replay={args.replay}")
            return 1
        print("replay: the property holds on this case", rec.labels)
        return 0

    subs = [s for s in prop.subs if not args.sub or s.name == args.sub]
    results = {
        "evaluations": 0,
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "known": set(),
        "skipped": 0,
    }
    per_sub = {}
    violation = None
    errors = []

    # 1. saved inputs (probes of known findings, shrunk failures of the past)
    regs = load_regressions(pid)
    for r in regs:
        if args.sub and r["sub"] != args.sub:
            continue
        try:
            rec = core.run_case(prop.sub(r["sub"]), r["case"], known)
        except core.Violation as v:
            violation = violation or (r["sub"], r["case"], str(v), ())
            break
        except Exception as e:  # pylint: disable=broad-except
            errors.append(f"saved case of {r['sub']}: {type(e).__name__}: {e}")
            break
        results["evaluations"] += 1
        results["known"].update(rec.known)
        if rec.nontrivial:
            results["nontrivial"].add(core.case_hash(r["case"]))
    n_saved = results["evaluations"]

    # 2. generated cases
    if violation is None and not errors:
        tasks = []
        for s in subs:
            total = max(1, int((s.quick if tier == "quick" else s.thorough) * args.scale))
            few = len(subs) > 8  # many sub-checks keep the workers busy by themselves
            shards = min(s.shards if tier == "quick" or few else max(8, s.shards), total)
            for k in range(shards):
                n = total // shards + (1 if k < total % shards else 0)
                tseed = zlib.crc32(f"{seed}|{pid}|{s.name}|{k}".encode())
                tasks.append((s.name, tseed, n))
        budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
        _STATE.update(prop=prop, known=known, deadline=time.time() + budget)
        jobs = args.jobs or min(8, os.cpu_count() or 1, len(tasks))
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs, maxtasksperchild=None) as pool:
            for out in pool.imap_unordered(_work, tasks, chunksize=1):
                st = per_sub.setdefault(
                    out["sub"], {"evaluations": 0, "nontrivial": set(), "skipped": 0}
                )
                st["evaluations"] += out["evaluations"]
                st["nontrivial"].update(out["nontrivial"])
                st["skipped"] += out["skipped"]
                results["evaluations"] += out["evaluations"]
                results["skipped"] += out["skipped"]
                results["nontrivial"].update(out["nontrivial"])
                results["known"].update(out["known"])
                for k, v in out["labels"].items():
                    key = f"{out['sub']}:{k}"
                    results["labels"][key] = results["labels"].get(key, 0) + v
                if len([x for x in results["samples"] if x["sub"] == out["sub"]]) < 1:
                    for c in out["samples"][:1]:
                        results["samples"].append({"sub": out["sub"], "case": c})
                if out["violation"]:
                    violation = (
                        out["sub"],
                        out["violation"]["case"],
                        out["violation"]["message"],
                        out["violation"].get("before", ()),
                    )
                    pool.terminate()
                    break
                if out["error"]:
                    errors.append(out["error"])
                    pool.terminate()
                    break

    # 3. report
    os.makedirs(EVID, exist_ok=True)
    samples = []
    for s in sorted(results["samples"], key=lambda x: x["sub"]):
        txt = core.case_json(s["case"])
        samples.append(
            s if len(txt) < 2500 else {"sub": s["sub"], "case_text": txt[:2500] + "..."}
        )
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": results["evaluations"],
            "distinct_nontrivial": len(results["nontrivial"]),
            "rule": prop.rule,
            "samples": samples,
            "saved_cases_replayed": n_saved,
            "not_evaluated_for_time": results["skipped"],
            "per_sub_check": {
                k: {
                    "evaluations": v["evaluations"],
                    "distinct_nontrivial": len(v["nontrivial"]),
                }
                for k, v in sorted(per_sub.items())
            },
            "classes": dict(sorted(results["labels"].items())),
            "known_findings_observed": sorted(results["known"]),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)

    if args.v:
        print(json.dumps({k: evidence["coverage"][k] for k in ("per_sub_check", "classes")}, indent=1))
    for kid in sorted(results["known"]):
        print(f"KNOWN-FINDING: property={pid} {kid}: {findings[kid]}")

    if violation is not None:
        sub, case, msg, before = violation
        path = write_replay(pid, sub, case, msg, before)
        print(f"{pid}/{sub}: {msg}")
        print(f"case: {core.case_json(case)[:3000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("error of the check (no verdict):")
        for e in errors:
            print(e)
        return 2
    print(
        f"{pid}: held on {results['evaluations']} cases "
        f"({len(results['nontrivial'])} distinct non-trivial), tier={tier} seed={seed}, "
        f"{evidence['wall_s']} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
