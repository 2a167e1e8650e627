#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE: makes /verif/seeded/ID from a scratch copy of /repo and checks it.
FILE is a python file defining EDITS = [(path, old, new)], NEEDS, BREAKS, DEMO (shell text of demo.sh), FILES = {name: text}, STUBS = bool.
Options: --notest skips the repository's test suite, --check runs the property's quick check on the patched copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, prop, f = [a for a in sys.argv[1:] if not a.startswith("--")]
g = {}
exec(open(f).read(), g)
wt = "/tmp/plant/" + bid
shutil.rmtree(wt, ignore_errors=True)
os.makedirs("/tmp/plant", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", wt], check=True)
d = os.path.join(V, "seeded", bid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
for p, old, new in g["EDITS"]:
    q = os.path.join(wt, p)
    t = open(q).read()
    assert t.count(old) == 1, (p, t.count(old), old)
    open(q, "w").write(t.replace(old, new))
patch = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
open(d + "/patch.diff", "w").write(patch)
json.dump({"property": prop, "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
# only lines of the original repository may be changed
import re
mine = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:"], stdout=subprocess.PIPE, text=True).stdout.split())
u0 = subprocess.run(["git", "-C", wt, "diff", "-U0"], stdout=subprocess.PIPE, text=True, check=True).stdout
path = None
for l in u0.splitlines():
    if l.startswith("--- a/"):
        path = l[6:]
    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
    if m and int(m.group(2) or 1):
        b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%s,+%s" % (m.group(1), m.group(2) or 1), "HEAD", "--", path], stdout=subprocess.PIPE, text=True, check=True).stdout
        for x in b.splitlines():
            if x.split()[0].lstrip("^") in mine:
                print("NOTE: a line of a fix commit is changed:", x)
for n, t in g.get("FILES", {}).items():
    open(os.path.join(d, n), "w").write(t)
if g.get("STUBS", False):
    shutil.copytree(V + "/stubs", d + "/stubs")
open(d + "/demo.sh", "w").write(g["DEMO"])
os.chmod(d + "/demo.sh", 0o755)
# the demonstration runs with cwd = the tree, and takes its sources from there
def demo(cwd):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
r = demo("/repo")
print("demo on /repo:", r.returncode, r.stdout[-1500:] if r.returncode else "")
r2 = demo(wt)
print("demo on patched:", r2.returncode, r2.stdout[-600:])
ok = r.returncode == 0 and r2.returncode != 0
subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
if "--notest" not in sys.argv:
    # the build has /repo's paths in it: run the tests against a patched /repo, undone straight afterwards
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        subprocess.run("bash /opt/vp/test.sh /tmp/plant/%s.json > /tmp/plant/%s.log 2>&1" % (bid, bid), shell=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    o = json.load(open("/tmp/plant/%s.json" % bid))
    print("tests: passed", len(o["passed"]), "failed", o["failed"])
    ok = ok and not o["failed"] and len(o["passed"]) >= 66
if "--check" in sys.argv:
    c = subprocess.run(["./check", prop, "quick"], cwd=V, env=dict(os.environ, VX_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("check:", c.returncode, c.stdout[-700:])
shutil.rmtree(wt, ignore_errors=True)
print("OK" if ok else "NOT OK", bid)
