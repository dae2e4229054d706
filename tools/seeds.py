#!/usr/bin/env python3
"""Writes seeded/<id>/ from the table in seeds_table.py: applies each edit to /repo, takes the diff, undoes it.
usage: tools/seeds.py [id...]"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seeds_table

PRE = r'''#!/bin/bash
# exit 0: behaves as it should; nonzero: the bug shows.  Run with cwd = the repository, after its build.
HERE=$(cd "$(dirname "$0")" && pwd)
SK=$PWD/build/skull/skull
D=$(mktemp -d) || exit 99
trap 'rm -rf "$D"' EXIT
cd "$D" || exit 99
cat > rt.c <<'EOF'
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
void pi(int64_t x) { printf("%lld\n", (long long)x); fflush(stdout); }
void pb(bool x) { printf("%d\n", x); fflush(stdout); }
void pf(double x) { printf("%.17g\n", x); fflush(stdout); }
void pr(int32_t x) { printf("%x\n", (unsigned)x); fflush(stdout); }
void ps(const char *x) { printf("[%s]\n", x); fflush(stdout); }
int64_t qi(int64_t x) { return x; }
double qf(double x) { return x; }
bool qb(bool x) { return x; }
EOF
cc -w -O1 -c rt.c -o rt.o || exit 99
# run FILE EXPECTED [options]: compile, link, run, compare the output
run() { local f=$1 want=$2; shift 2
  timeout 60 "$SK" "$f" "$@" -- "$D/rt.o" -lm >comp.out 2>&1 || { echo "$f: not compiled"; cat comp.out; exit 1; }
  timeout 20 "./${f%.sk}" >got.out 2>&1; local rc=$?
  [ $rc -lt 124 ] || { echo "$f: status $rc"; exit 1; }
  if [ "$(cat got.out)" != "$want" ]; then echo "$f: expected"; echo "$want"; echo "got"; cat got.out; exit 1; fi; }
# refuse FILE TEXT [options]: exit status 1 and a message with TEXT
refuse() { local f=$1 want=$2; shift 2
  timeout 60 "$SK" "$f" "$@" >comp.out 2>&1; local rc=$?
  [ $rc -eq 1 ] || { echo "$f: status $rc, expected a compilation error"; cat comp.out; exit 1; }
  grep -qF -- "$want" comp.out || { echo "$f: expected '$want'"; cat comp.out; exit 1; }; }
accept() { local f=$1; shift
  timeout 60 "$SK" "$f" "$@" >comp.out 2>&1 || { echo "$f: refused"; cat comp.out; exit 1; }; }
'''

def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, cwd="/repo", **k).stdout

assert not sh("git", "status", "--porcelain"), "/repo not clean"
for s in seeds_table.SEEDS:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    try:
        for path, old, new in s["edits"]:
            p = os.path.join("/repo", path)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], path, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "diff")
    finally:
        sh("git", "checkout", "-q", "--", ".")
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(PRE + s["demo"].strip("\n") + "\nexit 0\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", s["id"])
