#!/usr/bin/env python3
"""plant.py SPEC.py...: turns bug specifications into /verif/seeded/<id>/ after
confirming them in a scratch copy of /repo; 'plant.py -r [ID...]' re-confirms.

A spec file calls bug() with ID, PROP, PKG, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO
(source of a Go test file with TestDemo...), optional PKGNAME, RACE."""
import json, os, shutil, subprocess, sys, re

S = "/verif/seeded"
DEMO = """#!/bin/bash
# Run in the repository; exits non-zero if the planted change is present.
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/overlay.json"
/opt/veriftools/%(go)s/bin/go test -overlay "$T/overlay.json" -vet=off -count=1 %(race)s-run '^TestDemo' -timeout 200s ./%(pkg)s
"""

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout

def fresh(d):
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % (d, d), "/")

def stable(d):
    rc, out = sh('. /opt/vp/env.sh; cd %s; "$GO" build ./... && "$GO" test -json -vet=off -count=1 -p 1 -timeout 10m ./... > %s.json; python3 /opt/vp/results.py %s.out gojson:%s.json' % (d, d, d, d), d)
    if not os.path.exists(d + ".out"):
        return out[-1500:]
    got = json.load(open(d + ".out"))["passed"]
    os.remove(d + ".out"); os.remove(d + ".json")
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in got]
    return "missing %s" % miss if miss else ""

def confirm(i):
    d = "/tmp/plant-%d/%s" % (os.getpid(), i)
    fresh(d)
    try:
        rc, out = sh("bash %s/%s/demo.sh" % (S, i), d)
        if rc != 0:
            return "demo fails on the unchanged tree: " + out[-2500:]
        rc, out = sh("git apply %s/%s/patch.diff" % (S, i), d)
        if rc != 0:
            return "patch: " + out
        rc, out = sh("bash %s/%s/demo.sh" % (S, i), d)
        if rc == 0:
            return "demo passes with the patch"
        if "build failed" in out or "setup failed" in out:
            return "demo does not build: " + out[-2500:]
        dm = out
        e = stable(d)
        if e:
            return "tests: " + e
        print("   demo:", " | ".join(l.strip() for l in dm.splitlines() if "demo_test.go" in l or "panic" in l or "RACE" in l)[:300])
        return ""
    finally:
        shutil.rmtree("/tmp/plant-%d" % os.getpid())

def plant(ns):
    i = ns["ID"]
    d = "/tmp/plant-%d/src" % os.getpid()
    fresh(d)
    for f, old, new in ns["EDITS"]:
        s = open(d + "/" + f).read()
        if s.count(old) != 1:
            return i, "%s: %d matches of %r" % (f, s.count(old), old)
        open(d + "/" + f, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", d)
    o = S + "/" + i
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(DEMO % {"go": "go1.26.10" if "testing/synctest" in ns["DEMO"] else "go1.24.13", "pkg": ns["PKG"], "race": "-race " if ns.get("RACE") else ""})
    open(o + "/demo_test.go", "w").write(ns["DEMO"].lstrip())
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
    e = confirm(i)
    if e:
        os.makedirs("/tmp/rejected", exist_ok=True)
        shutil.rmtree("/tmp/rejected/" + i, ignore_errors=True)
        shutil.move(o, "/tmp/rejected/" + i)
    return i, e

if __name__ == "__main__":
    if sys.argv[1] == "-r":
        for i in sys.argv[2:] or sorted(os.listdir(S)):
            print(i, confirm(i) or "ok", flush=True)
    else:
        for f in sys.argv[1:]:
            todo = []
            exec(open(f).read(), {"bug": lambda **k: todo.append(k)})
            for ns in todo:
                if not os.path.exists(S + "/" + ns["ID"]):
                    print("%s: %s" % tuple(x or "KEPT" for x in plant(ns)), flush=True)
