#!/usr/bin/env python3
"""plant.py < PLAN: validate a planted bug in a scratch copy and keep it under /verif/seeded.
PLAN is Python defining ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source, exit status tells)."""
import json, os, re, shutil, subprocess, sys, tempfile
ns = {}
exec(sys.stdin.read(), ns)
V = "/verif/seeded/" + ns["ID"]
D = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
try:
    subprocess.check_call(["cp", "-a", "/repo/.", D])
    os.makedirs(V, exist_ok=True)
    open(V + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
    open(V + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(V + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(V + "/meta.json", "w"), indent=1)
    def fail(why):
        print("REJECTED", ns["ID"], why)
        shutil.rmtree(V)
        sys.exit(1)
    r = subprocess.run(["bash", V + "/demo.sh"], cwd=D, capture_output=True, text=True)
    if r.returncode != 0:
        fail("demo fails on the unchanged tree: " + r.stdout[-500:] + r.stderr[-1500:])
    for f, old, new in ns["EDITS"]:
        p = os.path.join(D, f)
        s = open(p).read()
        if s.count(old) != 1:
            fail(f"{f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", D, "diff", "--", "mediagrains"], capture_output=True, text=True).stdout
    open(V + "/patch.diff", "w").write(diff)
    r = subprocess.run(["bash", V + "/demo.sh"], cwd=D, capture_output=True, text=True)
    if r.returncode == 0:
        fail("demo passes with the change")
    print("demo with the change:", (r.stdout + r.stderr + "silent").strip().splitlines()[-1][:200])
    # lines of the original
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300",
                        "--continue-on-collection-errors", "--hypothesis-profile=ci", "--ignore=tests/test_gsf.py",
                        "-o", "junit_family=xunit2", "--junitxml=" + D + "/j.xml", "tests"], cwd=D, env=env, capture_output=True, text=True)
    subprocess.check_call(["python3", "/opt/vp/results.py", D + "/out.json", "junit:" + D + "/j.xml"], stdout=subprocess.DEVNULL)
    b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(D + "/out.json"))
    names = lambda x: set(next(x[k] for k in ("passed", "pass", "stable", "tests") if k in x))
    gone = names(b) - names(o)
    if gone:
        fail("tests notice: " + str(sorted(gone)[:3]))
    if "--nocheck" not in sys.argv:
        r = subprocess.run(["/opt/venv/bin/python", "check.py", ns["PROP"]], cwd="/verif", capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=D, VERIF_SEED="1", VERIF_TIER="quick"))
        print("check", ns["PROP"], "rc", r.returncode, "|", "\n".join(r.stdout.strip().splitlines()[:2])[:400])
    print("KEPT", ns["ID"])
finally:
    shutil.rmtree(D, ignore_errors=True)
