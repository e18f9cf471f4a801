#!/usr/bin/env python3
"""developer helper.  plant.py NAME [check]: seeded/NAME has patch.diff, demo.rs and meta.json; puts the demo runner
beside them, then tries it: demo on the unchanged tree, tests and demo with the patch, the property's check with the patch."""
import json, os, shutil, subprocess, sys
V = "/verif"
name = sys.argv[1]
d = os.path.join(V, "seeded", name)
for f in ("demo.sh", "run.py"):
    shutil.copy(os.path.join(V, "tools/plant", f), d)
os.chmod(os.path.join(d, "demo.sh"), 0o755)
meta = json.load(open(os.path.join(d, "meta.json")))
def sh(c, cwd="/repo"):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)
assert sh("git status --porcelain")[1] == "", "dirty /repo"
quickonly = "check" in sys.argv
if not quickonly:
    rc, o = sh("bash %s/demo.sh" % d)
    print("demo, unchanged:", rc, "" if rc == 0 else o[-1500:])
rc, o = sh("git apply %s/patch.diff" % d)
assert rc == 0, o
try:
    if not quickonly:
        rc, o = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json")
        if rc:
            print("build:", rc, o[-1500:])
        else:
            s = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            print("tests lost:", sorted(s - set(json.load(open("/tmp/t.json"))["passed"]))[:5])
        rc, o = sh("bash %s/demo.sh" % d)
        print("demo, patched:", rc, o[-400:])
    rc, o = sh("python3 check.py %s quick" % meta["property"], cwd=V)
    print("check:", rc, o[-1200:])
finally:
    sh("git checkout -- .")
