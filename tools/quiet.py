#!/usr/bin/env python3
"""Applies behaviour-preserving edits to scratch copies of /repo and expects
every check to stay quiet.  usage: quiet.py [-k substring] [-c C01,C02]"""
import os, subprocess, sys, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
R = []
def refactor(name, checks, *edits):
    R.append((name, checks.split(), edits))
CMP = "C32 C30 C01 C02 C03 C04 C05 C06 C07 C08 C09 C14 C25 C26 C28"
LINT = "C32 C31 C30 C14 C16 C17 C18 C19 C20 C25 C26"
CMD = "C32 C31 C30 C10 C11 C12 C13 C14 C15 C21 C22 C24 C25 C26 C27"
for f in sorted(os.listdir(os.path.join(HERE, "refactors"))):
    if f.endswith(".py"):
        exec(open(os.path.join(HERE, "refactors", f)).read())
env = dict(os.environ, GOPROXY="off", CGO_ENABLED="0", GOFLAGS="-mod=mod")
SA = os.environ.get("SA", "/tmp/sa")
claimed = {c["property"] for c in json.load(open(os.path.join(HERE, "..", "MANIFEST.json")))["checks"]}

def one(r, only):
    name, checks, edits = r
    d = tempfile.mkdtemp(prefix="quiet", dir="/tmp")
    out = []
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        for e in edits:
            p, o, n = e[:3]
            s = open(d + "/repo/" + p).read()
            if o not in s:
                return name, ["EDIT FAILS: " + o[:60]]
            s = s.replace(o, n) if len(e) > 3 and e[3] == 0 else s.replace(o, n, 1)
            open(d + "/repo/" + p, "w").write(s)
        b = subprocess.run("go build ./... && go vet ./pkg/... ./cmd/... ./utils/... && go test ./...", shell=True, cwd=d + "/repo", env=dict(env, GOFLAGS=""), capture_output=True, text=True)
        if b.returncode:
            return name, ["BUILD/TEST FAILS: " + (b.stderr + b.stdout)[:600]]
        for c in checks:
            if c not in claimed or only and c not in only:
                continue
            p = subprocess.run([SA, "check", c, "quick"], cwd=HERE + "/..", env=dict(env, SA_ROOT=d, SA_REPO=d + "/repo"), capture_output=True, text=True, timeout=900)
            if p.returncode:
                l = [x for x in (p.stdout + p.stderr).splitlines() if x.startswith("  ") and not x.startswith("  ob") or "panic" in x]
                out.append("%s rc=%d: %s" % (c, p.returncode, " | ".join(x.strip()[:230] for x in l[:2])))
        return name, out
    finally:
        shutil.rmtree(d)

def main():
    k = only = None
    a = sys.argv[1:]
    while a:
        o = a.pop(0)
        if o == "-k": k = a.pop(0)
        elif o == "-c": only = set(a.pop(0).split(","))
    rs = [r for r in R if not k or any(x in r[0] for x in k.split(","))]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(lambda r: one(r, only), rs):
            print("%-40s %s" % (name, "quiet" if not out else "ALARM"))
            for x in out: print("     " + x)
            bad += bool(out)
    print("%d of %d edits quiet" % (len(rs) - bad, len(rs)))
main()
