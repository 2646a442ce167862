#!/usr/bin/env python3
"""seed.py prepare ID...  : regenerate demo.reflect.c / lib.reflect.c and demo.sh of seeded/ID (C demos) from the unchanged tree
   seed.py verify ID...   : apply to /repo, build, stable tests, demo, check of the property; always reverts"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vlib
DEMO = r'''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SRC=$(ls src/*.c | grep -Ev '(_test|_checkmk|\.reflect|\.dummy|\.test)\.c$|/_module\.c$')
F="-g -O1 -w -fsanitize=address -Iinclude"
for s in $SRC; do echo "$F -DMETAC_MODULE_NAME=libmetac -c $PWD/$s -o $T/$(basename $s .c).o"; done > $T/jobs
echo "$F -DMETAC_MODULE_NAME=libmetac -c $D/lib.reflect.c -o $T/lib_reflect.o" >> $T/jobs
for s in $D/demo.c $([ -f $D/demo.reflect.c ] && echo $D/demo.reflect.c); do echo "$F -c $s -o $T/$(basename $s .c)_d.o"; done >> $T/jobs
xargs -P 8 -L 1 gcc < $T/jobs || exit 99
gcc -fsanitize=address $T/*.o -o $T/demo -lm || exit 99
ASAN_OPTIONS=detect_leaks=LEAKS timeout 120 $T/demo
'''
GODEMO = r'''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir $T/mod && sed "s#@STUB@#$D/gostub#" $D/gostub/go.mod > $T/mod/go.mod && cp $D/gostub/go.sum $T/mod/
GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-$T/cache} go build -modfile=$T/mod/go.mod -o $T/metac . || exit 99
cat > $T/cc.sh <<'EOS'
# elf OUT CC SOURCE... : the meta pass;  gen ELF OUT : reflection data;  prog OUT SOURCE... : a program with the library
elf() { o=$1; c=$2; shift 2; $c -Iinclude -w -g3 -D_METAC_OFF_ "$@" -o $o -Wl,--unresolved-symbols=ignore-all -nostartfiles -Wl,-e,0 2>/dev/null; }
gen() { $METAC run metac-reflect-gen -M ./modules -s 'path_type: "elf"' -s "path: \"$1\"" > $2; }
prog() { o=$1; shift; for s in $(ls src/*.c | grep -Ev '(_test|_checkmk|\.reflect|\.dummy|\.test)\.c$|/_module\.c$') $D/lib.reflect.c; do echo "-g -O1 -w -Iinclude -DMETAC_MODULE_NAME=libmetac -c $s -o $T/$(basename $s .c).lo"; done | xargs -P 8 -L 1 gcc; gcc -g -w -Iinclude "$@" $T/*.lo -lm -o $o; }
EOS
. $T/cc.sh
export METAC=$T/metac T D
set -e
. $D/run.sh
'''

def prepare(i):
    d = os.path.join(V, "seeded", i)
    if os.path.exists(os.path.join(d, "run.sh")):
        shutil.rmtree(os.path.join(d, "gostub"), ignore_errors=True)
        shutil.copytree(os.path.join(V, "gostub"), os.path.join(d, "gostub"))
        gm = os.path.join(d, "gostub", "go.mod")
        x = open(gm).read().replace("/verif/gostub", "@STUB@")
        open(gm, "w").write(x)
        b = vlib.Build()
        b.lib()
        shutil.copy(b.p("libmetac.reflect.c"), os.path.join(d, "lib.reflect.c"))
        open(os.path.join(d, "demo.sh"), "w").write(GODEMO)
    else:
        b = vlib.Build()
        b.lib()
        shutil.copy(b.p("libmetac.reflect.c"), os.path.join(d, "lib.reflect.c"))
        src = open(os.path.join(d, "demo.c")).read()
        if "METAC_GSYM_LINK" in src or "DECLLOC" in src or "WITH_ARGS" in src:
            with tempfile.TemporaryDirectory() as t:
                subprocess.run(["gcc", "-I" + vlib.REPO + "/include", "-w", "-g3", "-D_METAC_OFF_", "-c", os.path.join(d, "demo.c"), "-o", t + "/m.o"], check=True, cwd=d)
                subprocess.run(["gcc", t + "/m.o", "-o", t + "/m", "-Wl,--unresolved-symbols=ignore-all", "-nostartfiles", "-Wl,-e,0"], check=True, stderr=subprocess.DEVNULL)
                b.reflect(t + "/m", os.path.join(d, "demo.reflect.c"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("LEAKS", "1" if "LEAKCHECK" in src else "0").replace("-lm ||", ("-Wl,--wrap=calloc " if "__wrap_calloc" in src else "") + "-lm ||"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)

def git(*a):
    return subprocess.run(["git", "-C", "/repo"] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def verify(i, quick=False):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    assert not git("status", "--porcelain").stdout.strip(), "dirty /repo"
    r = {}
    run = lambda c, **k: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    if not quick:
        run(["bash", "/opt/vp/build.sh"])
        x = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        r["demo clean"] = x.returncode
        if x.returncode:
            print(x.stdout.decode()[-1500:])
    a = git("apply", os.path.join(d, "patch.diff"))
    if a.returncode:
        print(i, "patch does not apply", a.stdout.decode()); return
    try:
        if not quick:
            r["build"] = run(["bash", "/opt/vp/build.sh"]).returncode
            run(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"])
            o = json.load(open("/tmp/seed_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("stable") or base.get("passed") or base.get("tests") or []
            r["tests lost"] = [t for t in stable if t not in o["passed"]]
            x = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
            r["demo patched"] = x.returncode
            r["demo says"] = x.stdout.decode("utf8", "replace").strip()[-150:]
        x = run([sys.executable, os.path.join(V, "check.py"), m["property"]], cwd=V)
        out = x.stdout.decode("utf8", "replace")
        r["check rc"] = x.returncode
        r["caught"] = x.returncode == 1 and "VIOLATION property=%s " % m["property"] in out
        r["first"] = "; ".join(out.splitlines()[:2])[:240]
    finally:
        git("checkout", "--", ".")
    ok = quick or (r["demo clean"] == 0 and r["demo patched"] not in (0, 99) and r["build"] == 0 and not r["tests lost"])
    print(("CAUGHT " if r.get("caught") else "MISSED ") + ("" if ok else "INVALID ") + i, m["property"], json.dumps(r))

if sys.argv[1] == "prepare":
    for i in sys.argv[2:]:
        prepare(i)
else:
    ids = [x for x in sys.argv[2:] if x != "--quick"] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        verify(i, "--quick" in sys.argv)
