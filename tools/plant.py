#!/usr/bin/env python3
"""plant.py make ID...   confirm a bug of bugs.py (builds, stable tests pass, demo 0 -> nonzero) and write seeded/ID
   plant.py try ID...    run the property's check against it (in /repo, undone straight afterwards)"""
import json, os, subprocess, sys, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import bugs
REPO = "/repo"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    sh("git -C /repo checkout -- .")
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"

def apply(b):
    for f, old, new in b["edits"]:
        p = os.path.join(REPO, f)
        s = open(p, encoding="utf8").read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w", encoding="utf8").write(s.replace(old, new))

DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
gcc -std=gnu11 -w -g -DNDEBUG -D_POSIX_C_SOURCE=200112L %(flags)s -Ilibs/utils -Ilibs/macro -Ilibs/compiler "$here/demo.c" %(libs)s -lm -o "$tmp/demo"
cd "$tmp"
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''

def make(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    if "demo_sh" in b:
        open(d + "/demo.sh", "w").write(b["demo_sh"])
    else:
        open(d + "/demo.c", "w", encoding="utf8").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % {"flags": b.get("flags", "-fsanitize=address,undefined -fno-sanitize-recover=all"),
                                               "libs": b.get("libs", "libs/utils/*.c")})
    for n, t in b.get("files", {}).items():
        open(os.path.join(d, n), "w", encoding="utf8").write(t)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    clean()
    sh("bash /opt/vp/build.sh")
    r0 = sh(["bash", d + "/demo.sh"], cwd=REPO)
    try:
        apply(b)
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        t = sh("rm -f /tmp/plant_out.json; timeout -k 5 150 bash /opt/vp/test.sh /tmp/plant_out.json")
        if not os.path.exists("/tmp/plant_out.json"):
            print(b["id"], "tests hang"); sh("pkill -f run_tests.py"); return
        o = json.load(open("/tmp/plant_out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        missing = sorted(set(base["stable"]) - set(o["passed"]))
        r1 = sh(["bash", d + "/demo.sh"], cwd=REPO)
    finally:
        clean()
        sh("bash /opt/vp/build.sh")
    ok = r0.returncode == 0 and r1.returncode != 0 and not missing
    print("%-28s %s  demo clean=%d patched=%d missing=%s" % (b["id"], "OK" if ok else "REJECTED", r0.returncode, r1.returncode, missing[:3]), flush=True)
    if not ok:
        print(r0.stdout[-800:], r1.stdout[-500:])
        sh(["rm", "-rf", d])

def attempt(b):
    clean()
    try:
        r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, b["id"]))
        assert r.returncode == 0, r.stdout
        t = time.time()
        r = sh(["python3", "check.py", b["property"]], cwd=V)
        line = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print("%-28s %s rc=%d %.0fs %s" % (b["id"], b["property"], r.returncode, time.time() - t, line[:1] or r.stdout[-300:]), flush=True)
    finally:
        clean()

ids = sys.argv[2:]
for b in bugs.BUGS:
    if not ids and sys.argv[1] == "make" and os.path.exists(os.path.join(V, "seeded", b["id"], "patch.diff")):
        continue
    if not ids or b["id"] in ids:
        {"make": make, "try": attempt}[sys.argv[1]](b)
