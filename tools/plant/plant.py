"""Builds /verif/seeded/<id>/ from the specifications in bugs*.py: applies each change to a scratch copy of /repo, requires that the
tests pass there and that the demonstration fails with the change and passes without it.    plant.py [id ...]"""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
W = "/tmp/plant"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, timeout=timeout)


def base_commit():
    for c in sh("git rev-list --reverse HEAD", "/repo").stdout.split():
        if sh(f"git merge-base --is-ancestor {c} HEAD && git log -1 --format=%s {c}", "/repo").stdout.startswith("fix:"):
            return sh(f"git rev-parse {c}^", "/repo").stdout.strip()
    return "HEAD"


def main(ids):
    bugs = []
    for f in sorted(glob.glob(HERE + "/bugs*.py")):
        bugs += runpy.run_path(f)["BUGS"]
    base = base_commit()
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    for b in bugs:
        if ids and b["id"] not in ids:
            continue
        sh("git checkout -q -- .", W)
        bad = []
        for f, a, c in b["edits"]:
            p = os.path.join(W, f)
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                a, c = a.replace("\n", "\r\n"), c.replace("\n", "\r\n")
            if t.count(a) != 1:
                bad.append(f"{f}: {t.count(a)} matches of {a[:40]!r}")
            open(p, "w", newline="").write(t.replace(a, c, 1))
        diff = subprocess.run("git diff --no-color", cwd=W, shell=True, capture_output=True).stdout
        orig = 0
        cur = None
        for ln in diff.decode().split("\n"):
            if ln.startswith("--- a/"):
                cur = sh(f"git show {base}:{ln[6:].strip()}", W).stdout.split("\n")
                cur = {x.rstrip("\r") for x in cur}
            elif ln.startswith("-") and not ln.startswith("---") and cur and ln[1:].rstrip("\r") in cur and ln[1:].strip():
                orig += 1
        if not orig:
            bad.append("no original line changed")
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        shutil.copy(HERE + "/own.py", d + "/own.py")
        open(d + "/demo.py", "w").write("from own import *\n" + b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nexec env PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=10 -o timeout_method=signal tests", W)
        if t.returncode:
            bad.append("tests: " + t.stdout.strip().split("\n")[-1])
        r1 = sh(f"sh {d}/demo.sh", W)
        if r1.returncode == 0:
            bad.append("demo passes with the change")
        r0 = sh(f"sh {d}/demo.sh", "/repo")
        if r0.returncode != 0:
            bad.append("demo fails without the change: " + (r0.stdout + r0.stderr)[-300:])
        if not bad:
            e = dict(ENV, PYOWN_ROOT=W)
            c = subprocess.run(f"python3 run.py {b['property']}", cwd=os.path.dirname(SEED), shell=True, capture_output=True, text=True, env=e)
            v = [x for x in c.stdout.split("\n") if x.startswith("VIOLATION")]
            u = [x for x in c.stdout.split("\n") if x.startswith("undecided")]
            print(f"{b['id']:28} {b['property']} {'CAUGHT' if c.returncode == 1 and v else 'missed rc=' + str(c.returncode)} v={len(v)} u={len(u)} | demo: {r1.stdout.strip().split(chr(10))[-1][:90]}", flush=True)
        else:
            print(f"{b['id']:28} BAD {bad}", flush=True)
    shutil.rmtree(W, ignore_errors=True)


main(sys.argv[1:])
