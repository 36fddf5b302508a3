#!/usr/bin/env python3
"""plant.py SPEC.py [id ...] [--keep]: verify planted bugs and write seeded/<id>/.

A spec file is a Python file with a list B of dicts: id, prop, file, edits
[(old, new)], demo (python source), needs, breaks.  Each is applied to a copy of
/repo under /tmp which is bind-mounted over /repo in a private mount namespace, so
that several can be verified at the same time and /repo itself is never touched.
A bug is kept when it builds, passes the stable tests and its demonstration exits 0
without and non-zero with it; whether the check of its property catches it is only
reported.
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

BASE = "9d4c84c"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
W = "/tmp/w"


def ns(work, script, timeout=900):
    """run a shell script with work/repo mounted over /repo, private /verif/evidence"""
    os.makedirs(f"{work}/evidence", exist_ok=True)
    pre = f"mount --bind {work}/repo /repo && mount --bind {work}/evidence /verif/evidence && cd /repo || exit 99\n"
    p = subprocess.run(
        ["unshare", "-Urm", "bash", "-c", pre + script],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
    )
    return p.returncode, p.stdout


def one(b):
    work = f"{W}/{b['id']}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/demo")
    try:
        return b["id"], _one(b, work)
    except Exception as e:  # noqa
        return b["id"], f"ERROR {type(e).__name__}: {e}"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _one(b, work):
    subprocess.run(["cp", "-a", "/repo", work + "/repo"], check=True)
    open(work + "/demo/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(work + "/demo/demo.sh", "w").write(
        '#!/bin/bash\n# exit 0 when the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
    )
    rc, out = ns(work, f"bash {work}/demo/demo.sh", 300)
    if rc != 0:
        return f"DEMO FAILS UNPATCHED rc={rc}\n{out[-1500:]}"
    edits = b["edits"]
    for e in edits:
        f, old, new = e if len(e) == 3 else (b["file"], *e)
        p = f"{work}/repo/src/momlevel/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"EDIT matches {s.count(old)} times in {f}: {old[:80]!r}"
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", work + "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
    orig = set()
    for f in {(e[0] if len(e) == 3 else b["file"]) for e in edits}:
        orig |= set(subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:src/momlevel/{f}"], stdout=subprocess.PIPE, text=True).stdout.split("\n"))
    removed = [x[1:] for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
    note = ""
    if not any(x in orig for x in removed if x.strip()):
        note = " NOTE:no-original-line-changed"
    rc, out = ns(work, f"bash /opt/vp/build.sh >/dev/null 2>&1 || exit 98; bash /opt/vp/test.sh {work}/o.json")
    if rc == 98:
        return "DOES NOT BUILD"
    res = json.load(open(f"{work}/o.json"))
    passed = set(res.get("passed", []))
    failed = [t for t in STABLE if t not in passed]
    if failed:
        return f"TESTS FAIL {len(failed)}: {failed[:3]}"
    rc, out = ns(work, f"bash {work}/demo/demo.sh", 300)
    if rc == 0:
        return "DEMO PASSES WITH THE PATCH"
    dst = f"/verif/seeded/{b['id']}"
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(work + "/demo", dst)
    open(dst + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
    last = out.strip().split("\n")[-1][:100]
    rc, out = ns(work, f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py {b['prop']} --tier quick", 900)
    v = f"VIOLATION property={b['prop']}" in out
    return f"{'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc}{note} | demo: {last}" + ("" if v else "\n" + out[-300:])


def main():
    args = sys.argv[1:]
    specs = {}
    exec(open(args[0]).read(), specs)
    bs = [b for b in specs["B"] if not args[1:] or b["id"] in args[1:]]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(one, bs):
            print(f"{i}: {r}", flush=True)


if __name__ == "__main__":
    main()
