#!/usr/bin/env python3
"""tools/plant.py ID... : verifies planted bugs (development aid).  For each:
demo passes on the clean tree; with the patch it builds, the stable tests pass
and the demo fails; then the property's check is run against it."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    return sh("bash /opt/vp/build.sh").returncode == 0


def demo(d):
    try:
        r = sh("timeout 120 bash %s/demo.sh" % d, cwd="/repo")
    except Exception as e:
        return str(e)
    return r.returncode


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    o = set(json.load(open("/tmp/plant_out.json"))["passed"])
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - o


fast = "-f" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-f"]
assert build()
for i in ids:
    d = "%s/seeded/%s" % (HERE, i)
    print(i, "clean demo:", demo(d), flush=True)
for i in ids:
    d = "%s/seeded/%s" % (HERE, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    try:
        if sh("git -C /repo apply %s/patch.diff" % d).returncode:
            print(i, "patch does not apply")
            continue
        b = build()
        print(i, prop, "build:", b, "demo:", demo(d), "" if fast else "failing tests: %s" % (tests() or "none"), flush=True)
        r = sh("python3 %s/check.py %s" % (HERE, prop))
        print("   check exit %d: %s" % (r.returncode, "; ".join(r.stdout.splitlines()[-3:])), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
build()
