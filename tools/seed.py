#!/usr/bin/env python3
"""seed.py ID PROPERTY NEEDS BREAKS < demo.py   (the change is the git diff of the scratch copy)
Confirms a planted bug made in a scratch copy (default /tmp/seedwt, a cp -a of /repo) and keeps it
as /verif/seeded/ID: stable tests still pass, the demonstration passes on /repo and fails on the copy.
The scratch copy is reset afterwards."""
import json, os, subprocess, sys, xml.etree.ElementTree as ET
ident, prop, needs, breaks = sys.argv[1:5]
WT = os.environ.get("SEEDWT", "/tmp/seedwt")
PY = "/opt/venv/bin/python"
demo = sys.stdin.read()
diff = subprocess.run(["git", "-C", WT, "diff", "HEAD", "--", "src"], capture_output=True, text=True).stdout
if not diff.strip():
    sys.exit("no change in " + WT)
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ident)
tmp = f"/tmp/seeddemo.{os.getpid()}"
os.makedirs(tmp)
open(tmp + "/demo.py", "w").write(demo)
open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as specified\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
def run(src):
    e = dict(os.environ, PYTHONPATH=src, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run(["bash", tmp + "/demo.sh"], cwd="/repo", env=e, capture_output=True, text=True, timeout=300)
a, b = run("/repo/src"), run(WT + "/src")
if a.returncode != 0:
    print(a.stdout[-1500:], a.stderr[-1500:]); sys.exit("demo fails on the unchanged tree")
if b.returncode == 0:
    sys.exit("demo passes with the change")
e = dict(os.environ, PYTHONPATH=WT + "/src", PYTHONDONTWRITEBYTECODE="1")
subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", f"--basetemp={tmp}/t", "--timeout=60", "--continue-on-collection-errors",
                "--codeblocks", "-o", "junit_family=xunit2", f"--junitxml={tmp}/j.xml"], cwd=WT, env=e, capture_output=True, text=True)
ok = set()
for c in ET.parse(tmp + "/j.xml").iter("testcase"):
    if not any(x.tag in ("failure", "error", "skipped") for x in c):
        ok.add(c.get("classname") + "::" + c.get("name"))
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
bad = [t for t in stable if t not in ok]
if bad:
    print(len(bad), bad[:5]); sys.exit("stable tests fail with the change")
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
for f in ("demo.py", "demo.sh"):
    os.replace(f"{tmp}/{f}", f"{d}/{f}")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "src"])
subprocess.run(["rm", "-rf", tmp])
print("kept", ident, "demo:", ([""] + (b.stdout + b.stderr).strip().splitlines())[-1][:150])
