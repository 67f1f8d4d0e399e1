#!/usr/bin/env python3
"""mkbug.py ID: (re)builds seeded/ID/patch.diff from seeded/ID/bug.py and validates it in a scratch copy.
bug.py defines prop, needs, breaks, edits=[(file, old, new)], demo (Go test source), pkg (dir of the virtual test)."""
import sys, os, json, subprocess, shutil, tempfile, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; the test is laid in through an overlay
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"%(drop)s}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt"%(dropa)s > "$tmp/o.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
%(extra)sgo test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestZZDemo' ./%(pkg)s
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def make(src):
    g = {}
    exec(open(src, encoding="utf8").read(), g)
    id = g["id"]
    d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    try:
        sh("cp -a /repo/. %s/" % w)
        sh("git checkout -q -- . ", cwd=w)
        for f, a, b in g["edits"]:
            p = os.path.join(w, f); s = open(p, encoding="utf8").read()
            if s.count(a) != 1: print(id, "EDIT MATCHES", s.count(a), f); return False
            open(p, "w", encoding="utf8").write(s.replace(a, b))
        diff = sh("git diff", cwd=w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo_test.go.txt"), "w").write(g["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": g["pkg"], "extra": g.get("extra", ""),
            "drop": "".join(',"%s":""' for _ in g.get("drop", [])), "dropa": "".join(' "$PWD/%s/%s"' % (g["pkg"], x) for x in g.get("drop", []))})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
        fl = [f for f, _, _ in g["edits"]]
        bl = sh("git diff f683b4a HEAD -- %s" % " ".join(fl), cwd=w).stdout
        mine = {l[1:].strip() for l in bl.splitlines() if l.startswith("+") and not l.startswith("+++")}
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and len(l.strip()) > 3 and l[1:].strip() in mine: print(id, "touches own line:", l)
        b = sh("sed 's#/repo#%s#g' /opt/vp/env.sh > env.tmp; . ./env.tmp; go build $PKGS; r=$?; rm -f env.tmp; exit $r" % w, cwd=w)
        if b.returncode: print(id, "BUILD", b.stderr[-500:]); return False
        base = json.load(open("/opt/vp/BASELINE.json"))
        t = sh("sed 's#/repo#%s#g' /opt/vp/env.sh > env.tmp; . ./env.tmp; cd %s; go test -json -vet=off -count=1 -timeout 10m $PKGS > t.json; python3 /opt/vp/results.py out.json gojson:t.json; rm -f env.tmp" % (w, w), cwd=w)
        ok = set()
        try:
            out = json.load(open(os.path.join(w, "out.json")))
        except Exception as e: print(id, "TESTS", e, t.stderr[-300:]); return False
        for f in ("out.json", "t.json", "env.tmp"): sh("rm -f %s/%s" % (w, f))
        st = base["stable"]
        res = out["passed"]
        bad = [x for x in st if (x not in res if isinstance(res, list) else res.get(x) not in ("pass", "passed", True))] if isinstance(st, list) else None
        print(id, "broken stable tests:", bad if bad is not None else ("?", list(base)[:3], list(out)[:3]))
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo"); r2 = sh("bash %s/demo.sh" % d, cwd=w)
        print(id, "demo clean rc", r1.returncode, "patched rc", r2.returncode)
        if r1.returncode: print(r1.stdout[-1500:], r1.stderr[-500:])
        if "build failed" in r2.stdout + r2.stderr or not r2.returncode: print(r2.stdout[-800:], r2.stderr[-500:])
        return r1.returncode == 0 and r2.returncode != 0 and not bad
    finally:
        shutil.rmtree(w, ignore_errors=True)
for a in sys.argv[1:]: print("OK" if make(a) else "FAILED", a)
