#!/usr/bin/env python3
"""mkseed.py DEF.py...: confirm planted bugs in a scratch copy of /repo and store them under seeded/.
DEF.py defines: id, property, pkg, edits=[(file, old, new)], demo (Go test source), needs, breaks."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken. Run in /repo.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
timeout 250 go test -count=1 -vet=off -overlay "$t/o.json" -run '^TestZZDemo' ./PKG
'''
def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    work = "/tmp/seedwork"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work, symlinks=True)
    out = os.path.join("/tmp/seedout", d["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/demo_test.go.txt", "w").write(d["demo"])
    open(out + "/demo.sh", "w").write(DEMO.replace("PKG", d["pkg"]))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
    r = sh(f"bash {out}/demo.sh", work)
    if r.returncode != 0:
        print(d["id"], "BAD: demo fails on the unchanged tree\n", r.stdout[-2000:], r.stderr[-2000:]); continue
    ok = True
    for file, old, new in d["edits"]:
        p = os.path.join(work, file)
        s = open(p).read()
        if s.count(old) != 1:
            print(d["id"], "BAD: edit matches", s.count(old), "times:", old); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    patch = sh("git diff", work).stdout
    open(out + "/patch.diff", "w").write(patch)
    r = sh("go build ./... && go test -vet=off -count=1 $(go list ./... | grep -v diskii$) 2>&1", work)
    if r.returncode != 0:
        print(d["id"], "BAD: build or tests fail\n", r.stdout[-2000:], r.stderr[-2000:]); continue
    r = sh(f"bash {out}/demo.sh", work)
    if r.returncode == 0:
        print(d["id"], "BAD: demo passes with the patch"); continue
    dst = os.path.join(V, "seeded", d["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    print(d["id"], "ok:", [l for l in r.stdout.splitlines() if "demo_test" in l or "panic" in l][:1])
    shutil.rmtree(work, ignore_errors=True)
