#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from an edit list and confirms it in a scratch copy:
builds, stable tests pass, demo passes without and fails with the change."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=900)
STABLE = "g++ -std=c++20 -O0 -Iinclude -Itest test/test_annotations.cpp test/test_utils.cpp src/annotations.cpp src/utils.cpp -lfmt -lgmock_main -lgmock -lgtest -lpthread -o {o} && {o} >/dev/null"
def demo_sh(sources, extra=""):
    return """#!/bin/bash
# run with cwd /repo; exit 0 iff the property's demonstration succeeds
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O0 -g0 -w -Iinclude %s "$D/demo.cpp" %s -lfmt -o "$T/demo"
timeout 60 "$T/demo"
""" % (extra, " ".join(sources))
def make(id, prop, needs, breaks, edits, demo=None, sources=(), extra="", files=None, script=None):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        sh("git clone -q /repo %s/r" % t)
        r = t + "/r"
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: raise SystemExit("%s: %d matches of %r in %s" % (id, s.count(old), old, f))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", r).stdout
        open(d + "/patch.diff", "w").write(diff)
        if demo: open(d + "/demo.cpp", "w").write(demo)
        for n, x in (files or {}).items(): open(os.path.join(d, n), "w").write(x)
        open(d + "/demo.sh", "w").write(script or demo_sh(sources, extra))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash %s/demo.sh" % d, r); 
        if b.returncode == 0: print(id, "BAD: demo passes with the change", b.stdout[-300:]); return False
        if "error:" in b.stderr: print(id, "BAD: demo does not compile with the change", b.stderr[:1500]); return False
        if any(e[0].startswith(("src/utils", "src/annot", "include/libqasm/utils", "include/libqasm/annot")) for e in edits):
            s = sh(STABLE.format(o=t + "/st"), r)
            if s.returncode: print(id, "BAD: stable tests fail", s.stderr[:1000]); return False
        sh("git checkout -q -- .", r)
        a = sh("bash %s/demo.sh" % d, r)
        if a.returncode: print(id, "BAD: demo fails on the unchanged tree", (a.stdout + a.stderr)[-1500:]); return False
        print(id, "ok:", b.stdout.strip()[-150:]); return True
    finally: shutil.rmtree(t, ignore_errors=True)
