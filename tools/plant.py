#!/usr/bin/env python3
"""plant(...) makes one planted bug: applies the edit in a scratch copy of /repo,
confirms that it builds, passes the stable tests and is shown by its demo, and
writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, executable="/bin/bash", **kw)

DEMO = '''#!/bin/bash
# exit 0 on a correct tree, nonzero when the planted change is in
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
cat > "$tmp/o.json" <<J
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
J
go test -overlay "$tmp/o.json" -run '^TestZZDemo$' -count=1 -timeout 120s ./%(pkg)s
'''

DEMO_CLI = '''#!/bin/bash
# exit 0 on a correct tree, nonzero when the planted change is in
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
go build -o "$tmp/gql" . || exit 2
cd "$tmp"
%(body)s
'''

def plant(pid, prop, edits, needs, breaks, pkg=None, test=None, cli=None, replace=True):
    out = os.path.join(ROOT, "seeded", pid)
    if os.path.exists(os.path.join(out, "patch.diff")) and "--force" not in sys.argv and pid not in sys.argv:
        return
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(pid, "edit matches", s.count(old), "times in", f); return
            open(p, "w").write(s.replace(old, new))
        d = sh("git diff", r).stdout
        demo = os.path.join(tmp, "demo"); os.makedirs(demo)
        if cli is not None:
            open(os.path.join(demo, "demo.sh"), "w").write(DEMO_CLI % {"body": cli})
        else:
            open(os.path.join(demo, "demo.sh"), "w").write(DEMO % {"pkg": pkg})
            open(os.path.join(demo, "demo_test.go.txt"), "w").write(test)
        b = sh(". /opt/vp/env.sh; go build ./... && go vet ./cmd/... ./utils/... ./pkg/... 2>&1 | tail -5; go test ./... 2>&1 | tail -30", r)
        if "FAIL" in b.stdout or b.returncode != 0:
            print(pid, "tests fail:", b.stdout[-1500:], b.stderr[-1500:]); return
        x = sh("bash %s/demo.sh" % demo, r)
        y = sh("bash %s/demo.sh" % demo, "/repo")
        if x.returncode == 0 or y.returncode != 0:
            print(pid, "demo: patched", x.returncode, "clean", y.returncode); print((y.stdout + y.stderr)[-1500:] if y.returncode else x.stdout[-800:]); return
        if "build failed" in x.stdout + x.stderr or "setup failed" in x.stdout:
            print(pid, "demo does not build", x.stdout[-800:]); return
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(d)
        for f in os.listdir(demo):
            shutil.copy(os.path.join(demo, f), out)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(pid, "planted")
    finally:
        shutil.rmtree(tmp)
