#!/usr/bin/env python3
"""Confirm a planted change and record it: plant.py SPEC.py
SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (python text), NEEDS, BREAKS."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only_check = "--check" in sys.argv
tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
repo = os.path.join(tmp, "repo")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    out = os.path.join(VERIF, "seeded", ns["ID"])
    for f, old, new, *nth in ns["EDITS"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1 and not nth or nth and nth[0] >= n:
            sys.exit("%s: pattern occurs %d times" % (f, n))
        parts = s.split(old)
        k = nth[0] if nth else 0
        open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
    diff = subprocess.check_output(["git", "-C", repo, "diff"]).decode()
    demo = os.path.join(tmp, "demo")
    os.makedirs(demo)
    open(os.path.join(demo, "demo.py"), "w").write(ns["DEMO"])
    open(os.path.join(demo, "demo.sh"), "w").write(
        '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
        'exec timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(os.path.join(demo, "demo.sh"), 0o755)
    good = subprocess.run(["bash", demo + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    bad = subprocess.run(["bash", demo + "/demo.sh"], cwd=repo, capture_output=True, text=True)
    print("demo: clean %d, planted %d" % (good.returncode, bad.returncode), bad.stderr.strip().splitlines()[-1:], bad.stdout.strip()[-200:])
    if good.returncode != 0 or bad.returncode == 0:
        print(good.stdout[-500:], good.stderr[-1500:])
        sys.exit("demo does not separate")
    if not only_check:
        env = dict(os.environ, PYTHONPATH=repo + ":/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_network_marker",
                            "-m", "not network", "tests/package"], cwd=repo, env=env, capture_output=True, text=True)
        print("tests:", t.stdout.strip().splitlines()[-3:])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    for f in ("demo.py", "demo.sh"):
        shutil.copy(os.path.join(demo, f), os.path.join(out, f))
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    hit = []
    for c in man["checks"]:
        r = subprocess.run([sys.executable, "check.py", c["property"]], cwd=VERIF, env=dict(os.environ, VF_REPO=repo),
                           capture_output=True, text=True)
        if r.returncode:
            hit.append("%s(%d)" % (c["property"], r.returncode))
            print("\n".join(l[:300] for l in r.stdout.splitlines() if "violation [" in l or "broken" in l)[:900])
    print("caught by:", " ".join(hit) or "NOTHING")
finally:
    shutil.rmtree(tmp)
