"""Writes planted bugs to /verif/seeded from the definitions in tools/bugs_*.py and confirms them in scratch copies.

usage: plant.py write [ids]    make patch.diff, demo.sh, demo.py and meta.json; run the demo on the tree and on a patched copy
       plant.py suite [ids]    run the stable tests on copies with several of the bugs at once (all must pass)
       plant.py check [ids]    run the check of the property of each bug against a patched copy and print caught or missed
The checks do not use this file."""
import concurrent.futures
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = "736d008"

PRELUDE = open(os.path.join(VERIF, "tools", "demo_prelude.py")).read()


def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "bugs_*.py"))):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.BUGS
    ids = [b["id"] for b in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def copy_tree():
    d = tempfile.mkdtemp(prefix="plant_")
    shutil.copytree(f"{REPO}/src", f"{d}/src", ignore=shutil.ignore_patterns("__pycache__"))
    return d


def apply(d, b):
    lines = {}
    for file, old, new in b["edits"]:
        p = f"{d}/src/aspsim/{file}"
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit(f"{b['id']}: the text occurs {n} times in {file}: {old!r}")
        open(p, "w").write(s.replace(old, new))


def original_lines_only(patch):
    """every line that the patch removes is one of the original repository, and there is at least one"""
    removed = 0
    file = None
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            file = l[6:]
            blame = subprocess.run(["git", "-C", REPO, "blame", "-s", file], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if BASE not in blame[ln - 1].split(" ")[0]:
                return f"{file}:{ln} is not an original line"
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return None if removed else "the patch removes no line"


def demo(d, folder):
    with tempfile.TemporaryDirectory() as w:
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["bash", f"{folder}/demo.sh"], cwd=d, capture_output=True, text=True, env=env, timeout=300)
    return r


def write(b):
    folder = f"{VERIF}/seeded/{b['id']}"
    os.makedirs(folder, exist_ok=True)
    d = copy_tree()
    o = copy_tree()
    try:
        apply(d, b)
        r = subprocess.run(["diff", "-ru", "-x", "__pycache__", f"{o}/src", f"{d}/src"], capture_output=True, text=True).stdout
        patch = []
        for l in r.splitlines(keepends=True):
            if l.startswith("diff "):
                continue
            if l.startswith("--- "):
                l = "--- a/" + l.split("\t")[0][len("--- " + o) + 1:] + "\n"
            elif l.startswith("+++ "):
                l = "+++ b/" + l.split("\t")[0][len("+++ " + d) + 1:] + "\n"
            patch.append(l)
        patch = "".join(patch)
        open(f"{folder}/patch.diff", "w").write(patch)
        bad = original_lines_only(patch)
        if bad:
            return b["id"], "BAD: " + bad
        a = subprocess.run(["git", "-C", REPO, "apply", "--check", f"{folder}/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return b["id"], "BAD: does not apply " + a.stderr
        open(f"{folder}/demo.py", "w").write(PRELUDE + "\n" + b["demo"].strip("\n") + "\n")
        open(f"{folder}/demo.sh", "w").write('#!/bin/bash\n# run in the repository: exit 0 if the property holds in this demonstration\n'
                                             'export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                             'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{folder}/meta.json", "w"), indent=1)
        good, broken = demo(REPO, folder), demo(d, folder)
        if good.returncode:
            return b["id"], "BAD: the demo fails on the tree\n" + good.stdout[-300:] + good.stderr[-1500:]
        if not broken.returncode:
            return b["id"], "BAD: the demo does not fail with the patch"
        return b["id"], "ok: " + (broken.stderr.strip().splitlines() or ["?"])[-1][:150]
    finally:
        shutil.rmtree(d)
        shutil.rmtree(o)


def suite(group):
    d = copy_tree()
    try:
        shutil.copytree(f"{REPO}/tests", f"{d}/tests")
        for b in group:
            apply(d, b)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{d}/src", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   NUMBA_NUM_THREADS="1", PYTHONHASHSEED="0", HYPOTHESIS_STORAGE_DIRECTORY=f"{d}/hyp")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--hypothesis-profile=ci", "--show-capture=no", "-rA",
                            "--tb=no", "-n", "8", "--dist", "worksteal", f"--basetemp={d}/pt", "tests"], cwd=d, env=env, capture_output=True, text=True)
        passed = {re.sub(r"^tests/(\w+)\.py::", r"tests.\1::", l.split()[1]) for l in r.stdout.splitlines() if l.startswith("PASSED")}
        return sorted(stable - passed), r.stdout[-600:]
    finally:
        shutil.rmtree(d)


def check(b):
    d = copy_tree()
    try:
        apply(d, b)
        shutil.copytree(VERIF, f"{d}/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        env = dict(os.environ, VERIF_REPO_SRC=f"{d}/src", VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["python3", f"{d}/verif/check.py", b["property"]], cwd=f"{d}/verif", env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        return b["id"], b["property"], r.returncode, lines[:2], r.stdout[-300:] + r.stderr[-300:]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    todo = bugs()
    if len(sys.argv) > 2:
        todo = [b for b in todo if any(re.match(a, b["id"]) for a in sys.argv[2:])]
    if sys.argv[1] == "write":
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for i, r in ex.map(write, todo):
                print(i, r, flush=True)
    elif sys.argv[1] == "suite":
        # bugs in one group must not touch the same place; groups are made greedily over the edits
        groups = []
        for b in todo:
            for g in groups:
                if len(g) < 14 and not any(set(x[0:2] for x in b["edits"]) & set(x[0:2] for x in o["edits"]) or b.get("alone") or o.get("alone") for o in g):
                    d = copy_tree()
                    try:
                        for o in g + [b]:
                            apply(d, o)
                        g.append(b)
                        break
                    except SystemExit:
                        pass
                    finally:
                        shutil.rmtree(d)
            else:
                groups.append([b])
        for g in groups:
            print([b["id"] for b in g], flush=True)
            missing, out = suite(g)
            print("  stable tests that do not pass:", missing, flush=True)
    elif sys.argv[1] == "check":
        n = 0
        for b in todo:
            i, p, rc, lines, tail = check(b)
            print("caught" if rc == 1 and lines else f"MISSED rc={rc}", i, p, *lines, flush=True)
            if rc not in (0, 1):
                print(tail)
