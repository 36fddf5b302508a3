#!/usr/bin/env python3
"""run_seeded.py [id ...] [--seed N] [--table]: run the check of its property against
each planted bug (in a private mount namespace; /repo is not touched).  --table writes
SEEDED.md from the results."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ns, W

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i, seed):
    work = f"{W}/rs-{i}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        subprocess.run(["cp", "-a", "/repo", work + "/repo"], check=True)
        a = subprocess.run(["git", "-C", work + "/repo", "apply", f"{ROOT}/seeded/{i}/patch.diff"])
        if a.returncode:
            return i, "DOES NOT APPLY", ""
        p = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
        rc, out = ns(work, f"cd /verif && VERIF_SEED={seed} VERIF_TIER=quick python3 run.py {p} --tier quick --jobs 2", 900)
        m = re.search(rf"^{p}/(\w+): (.*)$", out, re.M)
        if rc == 1 and f"VIOLATION property={p}" in out:
            return i, "caught", f"{m.group(1)}: {m.group(2)[:140]}" if m else ""
        return i, f"MISSED rc={rc}", out[-200:] if rc else ""
    except Exception as e:  # noqa
        return i, f"ERROR {e}", ""
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    seed = 1
    if "--seed" in args:
        k = args.index("--seed")
        seed = int(args[k + 1])
        del args[k : k + 2]
    table = "--table" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(f"{ROOT}/seeded"))
    rows = []
    with ThreadPoolExecutor(4) as ex:
        for i, r, d in ex.map(lambda i: one(i, seed), ids):
            print(f"{i}: {r} | {d}", flush=True)
            rows.append((i, r, d))
    print(sum(r == "caught" for _, r, _ in rows), "of", len(rows), "caught")
    if table:
        with open(f"{ROOT}/SEEDED.md", "w") as f:
            f.write("# Planted bugs and the checks that catch them\n\nWritten by `tools/run_seeded.py --table` (quick tier, seed 1). Each is described in `seeded/<id>/meta.json`.\n\n| planted bug | property | needs | result | sub-check that reports it |\n|---|---|---|---|---|\n")
            for i, r, d in rows:
                m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
                f.write(f"| {i} | {m['property']} | {m['needs']} | {r} | {d.split(':')[0]} |\n".replace("\n", " ").strip() + "\n")


if __name__ == "__main__":
    main()
