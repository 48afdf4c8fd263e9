#!/usr/bin/env python3
"""Makes and validates a planted bug.  usage: mkseed.py SPEC.py...
A spec defines ID, PROP, EDITS [(file, old, new)], PKG, TEST (Go test source), NEEDS, BREAKS."""
import json, os, subprocess, sys, tempfile, shutil
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the demonstration test beside this script inside package %s of the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/zz_seed_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD/%s" "$d" > "$t/overlay.json"
cp "$d/demo_test.go.txt" "$t/demo_test.go"
printf '{"Replace": {"%%s/zz_seed_demo_test.go": "%%s/demo_test.go"}}' "$PWD/%s" "$t" > "$t/overlay.json"
timeout 280 go test %s-overlay "$t/overlay.json" -vet=off -count=1 -timeout 250s -run 'TestSeedDemo' ./%s
'''
def sh(cmd, cwd=None):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True)
def do(spec):
    ns = {}
    exec(open(spec).read(), ns)
    wt = tempfile.mkdtemp(prefix="seedwt")
    os.rmdir(wt)
    sh("git -C /repo worktree prune; git -C /repo worktree add -q --detach %s HEAD" % wt)
    try:
        orig = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        for f, old, new in ns["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (spec, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        # at least one removed line must be an original line
        diff = sh("git diff", wt).stdout
        base = {}
        ok = False
        cur = None
        for l in diff.splitlines():
            if l.startswith("+++ b/"):
                cur = l[6:]
                base[cur] = set(x.strip() for x in sh("git show %s:%s" % (orig, cur), wt).stdout.splitlines())
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() in base.get(cur, ()):
                ok = True
        if not ok:
            print(ns["ID"], "WARNING: no original line removed")
        out = os.path.join(verif, "seeded", ns["ID"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        pkg = ns["PKG"]
        race = "-race " if ns.get("RACE") else ""
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % (pkg, pkg, pkg, race, pkg))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo_test.go.txt"), "w").write(ns["TEST"].lstrip())
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = sh("go build ./... && go test ./... 2>&1 | grep -v '^ok\\|no test files'", wt)
        if r.stdout.strip() or r.stderr.strip():
            print(ns["ID"], "TESTS FAIL", r.stdout[-1500:], r.stderr[-1500:]); return False
        bad = sh("bash %s/demo.sh" % out, wt)
        good = sh("bash %s/demo.sh" % out, "/repo")
        if good.returncode != 0:
            print(ns["ID"], "DEMO FAILS ON CLEAN TREE", good.stdout[-2000:], good.stderr[-1000:]); return False
        if bad.returncode == 0:
            print(ns["ID"], "DEMO PASSES WITH PATCH", bad.stdout[-1500:]); return False
        if "FAIL: TestSeedDemo" not in bad.stdout and "panic" not in bad.stdout and "DATA RACE" not in bad.stdout:
            print(ns["ID"], "demo fails oddly", bad.stdout[-1500:], bad.stderr[-500:])
        # does our check catch it?
        if "--nocheck" not in sys.argv:
            sh("git -C /repo apply %s/patch.diff" % out)
            try:
                c = sh("./run.sh %s quick" % ns["PROP"], verif)
            finally:
                sh("git -C /repo checkout -- .")
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print(ns["ID"], ns["PROP"], "caught" if v and c.returncode == 1 else "MISSED rc=%d %s" % (c.returncode, c.stderr[-300:]), (c.stdout.split("\n")[1] if v else "")[:160])
        return True
    finally:
        sh("git -C /repo worktree remove --force %s; git -C /repo worktree prune" % wt)
        shutil.rmtree(wt, ignore_errors=True)
for s in sys.argv[1:]:
    if not s.startswith("--"):
        do(s)
