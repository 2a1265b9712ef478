#!/usr/bin/env python3
"""Make / confirm a planted bug in a scratch copy.  seed.py ID PROP 'needs' 'breaks' < spec
spec (stdin, python literal): {"edits": [(file, old, new), ...], "demo": C++ source of main()'s body helpers}"""
import sys, os, subprocess, json, shutil, ast
SID, PROP, needs, breaks = sys.argv[1:5]
spec = ast.literal_eval(sys.stdin.read())
W = "/tmp/wt-" + SID
D = "/verif/seeded/" + SID
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if os.path.exists(W): shutil.rmtree(W)
sh("cp -a /repo %s && rm -rf %s/_build" % (W, W))
for f, old, new in spec["edits"]:
    p = W + "/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
if spec.get("demo"):
    open(D + "/demo.cpp", "w").write(spec["demo"])
    open(D + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository after its build
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w %s -I "$PWD/include" -I "$PWD/src" "$here/demo.cpp" %s -o "$tmp/demo" || exit 3
timeout 200 "$tmp/demo"
""" % (spec.get("flags", ""), spec.get("link", '"$PWD/_build/libbls12-381.a"')))
    os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
for n in ("build.sh", "test.sh"):
    s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", W + "/.vp-build.sh").replace("/repo", W)
    open(W + "/.vp-" + n, "w").write(s)
r = sh("bash %s/.vp-test.sh %s/.out.json" % (W, W))
o = json.load(open(W + "/.out.json"))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
miss = [x for x in base if x not in o["passed"]]
print("tests: passed %d, stable missing: %s" % (len(o["passed"]), miss[:5]))
a = sh("bash %s/demo.sh" % D, cwd="/repo")
b = sh("bash %s/demo.sh" % D, cwd=W)
print("demo clean rc=%d  patched rc=%d" % (a.returncode, b.returncode), a.stdout[-200:], a.stderr[-300:], b.stdout[-200:], b.stderr[-300:])
ok = not miss and a.returncode == 0 and b.returncode != 0
print("CONFIRMED" if ok else "REJECTED")
if ok or spec.get("check", True):
    t = sh("DV_REPO=%s timeout 900 python3-vt /verif/check.py %s" % (W, PROP), cwd="/verif")
    print(t.stdout[-1500:], t.stderr[-500:], "rc", t.returncode)
sh("rm -rf " + W)
if not ok and not spec.get("keep"):
    shutil.rmtree(D)
