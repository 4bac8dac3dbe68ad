#!/usr/bin/env python3
"""Makes and confirms a planted bug. usage: mkseed.py DIR
DIR/edit.py defines EDITS = [(file, old, new), ...], META = {...}, PKG = package directory of demo_test.go.
Writes DIR/patch.diff, demo.sh, meta.json; edit.py is removed once everything is confirmed."""
import sys, os, json, subprocess, shutil, tempfile
d = os.path.abspath(sys.argv[1])
ns = {"PKG": ".", "TAGS": "", "RACE": ""}
exec(open(os.path.join(d, "edit.py")).read(), ns)
scratch = tempfile.mkdtemp(prefix="seed.")
repo = "/repo"
def run(cmd, **kw): return subprocess.run(cmd, shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
assert run("git -C /repo status --porcelain").stdout == "", "repo not clean"
demo = '''#!/bin/bash
# Runs the test beside this file against the code in the current directory.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$PWD/PKG/zz_demo_test.go" "$d/demo_test.go" >"$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s TAGS "$GC" -run '^TestDemo$' ./PKG
'''.replace("PKG", ns["PKG"]).replace("TAGS", ns["TAGS"])
if "DEMO" in ns: demo = ns["DEMO"]
open(os.path.join(d, "demo.sh"), "w").write(demo); os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump(ns["META"], open(os.path.join(d, "meta.json"), "w"), indent=1)
ok = True
try:
    run("/opt/vp/build.sh")
    r = run("bash %s/demo.sh" % d, cwd=repo)
    if r.returncode != 0: ok = False; print("DEMO FAILS ON UNCHANGED TREE\n" + r.stdout[-3000:])
    for f, a, b in ns["EDITS"]:
        p = os.path.join(repo, f); s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = run("git -C /repo diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    r = run("bash /opt/vp/build.sh")
    if r.returncode != 0: ok = False; print("DOES NOT BUILD\n" + r.stdout[-3000:])
    else:
        run("bash /opt/vp/test.sh %s/o.json" % scratch)
        base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(scratch + "/o.json"))
        bt = json.dumps(base); 
        def passed(x): return set(x.get("passed", x.get("pass", [])))
        want = set(base.get("stable", base.get("passed", base.get("tests", []))))
        miss = want - passed(o)
        if miss: ok = False; print("TESTS FAIL", sorted(miss)[:10])
        if not want: ok = False; print("baseline format?", list(base), list(o))
        r = run("bash %s/demo.sh" % d, cwd=repo)
        if r.returncode == 0: ok = False; print("DEMO PASSES WITH THE PATCH")
        else: print("demo with patch:", [l for l in r.stdout.splitlines() if l.strip()][:6])
finally:
    run("git -C /repo checkout -- .")
    shutil.rmtree(scratch)
print("OK" if ok else "NOT OK", os.path.basename(d))
sys.exit(0 if ok else 1)
