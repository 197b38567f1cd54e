#!/usr/bin/env python3
# builds /verif/seeded/<id> from the definitions in scripts/seeds_*.py and confirms each one in a scratch copy:
#   it applies, builds, keeps the stable tests, and its demonstration fails with it and passes without it
import re, json, os, shutil, subprocess, sys, tempfile, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo): SEEDS.append((id, prop, edits, needs, breaks, demo))
for f in sorted(glob.glob(here + "/scripts/seeds_*.py")): exec(open(f).read())
want = sys.argv[1:]
DEMO = r'''#!/bin/bash
# run in the repository; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go" && cp "$repo/go.sum" "$tmp/"
printf 'module demo\n\ngo 1.13\n\nrequire github.com/liujiangwei/xxcache v0.0.0\n\nreplace github.com/liujiangwei/xxcache => %s\n' "$repo" > "$tmp/go.mod"
cd "$tmp" && go build -o demo . && timeout 120 ./demo
'''
PRE = '''package main

import (
%s)

func check(ok bool, what string, a ...interface{}) {
	if !ok {
		fmt.Printf(what+"\\n", a...)
		os.Exit(1)
	}
}

%s'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
for id, prop, edits, needs, breaks, demo in SEEDS:
    if want and id not in want: continue
    d = here + "/seeded/" + id
    if not want and os.path.exists(d + "/ok"): continue
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    sh("git clone -q /repo r", w)
    r = w + "/r"
    try:
        bad = None
        for f, old, new in edits:
            t = open(r + "/" + f).read()
            if t.count(old) != 1: bad = "%s: pattern occurs %d times" % (f, t.count(old)); break
            open(r + "/" + f, "w").write(t.replace(old, new))
        if bad: print(id, bad); continue
        open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
        if isinstance(demo, dict):
            for n, t in demo.items():
                open(d + "/" + n, "w").write(t)
        else:
            imports = ["fmt", "os"] + [i for i in ("time", "strings", "bufio", "bytes", "net", "strconv", "math", "sync", "io", "errors", "path/filepath", "context", "reflect", "runtime") if re.search(r"\b" + i.split("/")[-1] + r"\.", demo)]
            im = "".join('\t"%s"\n' % i for i in sorted(imports))
            for pk in ("cache", "redis", "redis/rdb", "redis/lzf", "redis/ziplist", "redis/intset", "redis/zipmap"):
                if re.search(r"(?<![a-z])" + pk.split("/")[-1] + r"\.", demo): im += '\t"github.com/liujiangwei/xxcache/%s"\n' % pk
            if "xxcache." in demo: im += '\t"github.com/liujiangwei/xxcache"\n'
            open(d + "/demo.go.txt", "w").write(PRE % (im, demo))
            open(d + "/demo.sh", "w").write(DEMO)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        b = sh("go build ./... && go vet ./cache ./redis/... >/dev/null 2>&1; go build ./...", r)
        if b.returncode: print(id, "does not build", b.stderr[:500]); continue
        # stable tests, as the test script runs them
        t = sh("go test -json ./cache/... ./redis/... 2>/dev/null", r)
        fails = set()
        for l in t.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "fail" and e.get("Test"): fails.add(e["Test"])
        t0 = sh("go test -json ./cache/... ./redis/... 2>/dev/null", "/repo")
        base = set()
        for l in t0.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "fail" and e.get("Test"): base.add(e["Test"])
        x1 = sh("bash %s/demo.sh" % d, r)
        x0 = sh("bash %s/demo.sh" % d, "/repo")
        ok = not (fails - base) and x1.returncode != 0 and x0.returncode == 0
        print(id, "ok" if ok else "BAD", "new failing tests:", fails - base, "with:", x1.returncode, x1.stdout.strip()[-200:], x1.stderr[-200:] if "demo" not in x1.stdout else "", "without:", x0.returncode, x0.stdout[-200:], x0.stderr[-300:] if x0.returncode else "")
    finally:
        shutil.rmtree(w)
