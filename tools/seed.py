#!/usr/bin/env python3
"""dev: make / validate a planted bug.
seed.py make ID Pxx FILE <<< JSON {"old":..., "new":..., "needs":..., "what":..., "demo": python source}
seed.py test ID [check|nocheck]  (builds a scratch copy, runs tests, demo both ways, and the check against the copy)"""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(i, prop, edits, needs, what, demo):
    d = f"{V}/{i}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    sh(f"cp -a /repo {t}/repo")
    for f, old, new in edits:
        p = f"{t}/repo/{f}"; s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=f"{t}/repo").stdout)
    open(f"{d}/demo.py", "w").write(demo.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository: exit 0 when the property holds\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1\nP=/opt/venv/bin/python; [ -x "$P" ] || P=python3\nexec "$P" "$d/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(t)
def test(i, check=True):
    d = f"{V}/{i}"; prop = json.load(open(f"{d}/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp"); out = [i, prop]
    try:
        sh(f"cp -a /repo {t}/repo"); R = f"{t}/repo"
        a = sh(f"timeout 300 bash {d}/demo.sh", cwd=R); out.append(f"demo-clean={a.returncode}")
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
        g = sh(f"git apply {d}/patch.diff", cwd=R); assert g.returncode == 0, g.stderr
        b = sh(f"timeout 300 bash {d}/demo.sh", cwd=R); out.append(f"demo-bug={b.returncode} {(b.stdout + b.stderr).strip().splitlines()[-1:]}")
        if check:
            c = sh(f"VERIF_SEED=1 VERIF_TIER=quick PYVC_REPO={R} VERIF_REPO={R} python3-vt /verif/check.py --property {prop} --tier quick", cwd="/verif")
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            out.append(f"check={c.returncode} {'with-input' if any('no-failing' not in l for l in v) else 'no-input' if v else ''} n={len(v)}")
            if c.returncode not in (0, 1): print(c.stdout[-500:], c.stderr[-1500:])
            for l in c.stdout.splitlines()[:6]: out.append("\n      " + l[:220])
    finally: shutil.rmtree(t)
    print(*out, flush=True)
def tests(i):
    """run the repository tests with the patch, in /repo, and undo it"""
    d = f"{V}/{i}"
    g = sh(f"git -C /repo apply {d}/patch.diff"); assert g.returncode == 0, g.stderr
    try:
        a = sh("bash /opt/vp/build.sh"); b = sh("bash /opt/vp/test.sh /tmp/seedtest.json"); 
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
        print(i, "build", a.returncode, b.stdout.strip().splitlines()[-1:], flush=True)
    finally: sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    if sys.argv[1] == "test":
        for i in sys.argv[2].split(","): test(i, "nocheck" not in sys.argv)
    if sys.argv[1] == "tests":
        for i in sys.argv[2].split(","): tests(i)
