"""Authoring helper for /verif/seeded (not used by any check): builds patch.diff from edits in a scratch copy."""
import os, sys, subprocess, json, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_OOM = r'''#!/bin/bash
# Fails the N-th allocation the compiler asks for, for every N, and requires an orderly failure each time:
# a positive exit status, no signal, no success.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH="$PWD/bin/libs"
gcc -shared -fPIC -O1 -o "$T/oom.so" "$D/oom.c" -ldl || exit 3
cp "$D"/in* "$T/" || exit 3
cd "$T"
K="$OLDPWD/bin/kefir"
OOM_COUNT="$T/cnt" LD_PRELOAD="$T/oom.so" "$K" -o ref.s in.c || { echo "reference compilation failed"; exit 4; }
N=$(cat cnt); echo "allocations: $N"
[ "$N" -gt 100 ] || exit 5
seq 1 "$N" | xargs -P 8 -n 50 bash -c 'for i in "$@"; do
  OOM_AT=$i LD_PRELOAD="'"$T"'/oom.so" "'"$K"'" -o "o$i.s" in.c >/dev/null 2>&1; rc=$?; rm -f "o$i.s"
  if [ $rc -eq 0 ] || [ $rc -ge 126 ]; then echo "allocation $i failed: exit status $rc"; fi
done' _ > bad.txt 2>/dev/null
if [ -s bad.txt ]; then head -5 bad.txt; echo "$(wc -l < bad.txt) misbehaving runs"; exit 1; fi
exit 0
'''
OOM_C = open(os.path.join(VERIF, "tools", "oom.c")).read()
IN_C = open(os.path.join(VERIF, "tools", "in.c")).read()


def mk(sid, prop, edits, needs, breaks, demo=DEMO_OOM, files=None):
    d = os.path.join(VERIF, "seeded", sid)
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && "
                       "git -c user.email=a@b -c user.name=a commit -qm base" % (tmp, tmp), shell=True, check=True)
        for f, a, b, *nth in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            if not nth and s.count(a) != 1 or nth and s.count(a) <= nth[0]:
                raise SystemExit("%s: %s: pattern occurs %d times\n%s" % (sid, f, s.count(a), a))
            pos = -1
            for _ in range((nth[0] if nth else 0) + 1):
                pos = s.index(a, pos + 1)
            open(p, "w").write(s[:pos] + b + s[pos + len(a):])
        diff = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(tmp)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if demo is DEMO_OOM:
        open(os.path.join(d, "oom.c"), "w").write(OOM_C)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", d)


# The demonstration compiles prog.c with kefir, links it with main.c (built by gcc) and runs it: main exits 0 when the values are right.
DEMO_RUN = r'''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH="$PWD/bin/libs"
as -o "$T/rt.o" source/runtime/amd64_sysv.s || exit 3
bin/kefir -o "$T/k.s" "$D/prog.c" || { echo "prog.c is not compiled"; exit 4; }
gcc -w -no-pie -o "$T/m" "$D/main.c" -x assembler "$T/k.s" -x none "$T/rt.o" 2>"$T/err" || { cat "$T/err"; exit 5; }
timeout 60 "$T/m"; rc=$?
[ $rc -eq 0 ] || { echo "program exits with $rc"; exit 1; }
exit 0
'''
# good*.c must be compiled, bad*.c must be refused in an orderly way
DEMO_ACCEPT = r'''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH="$PWD/bin/libs"
shopt -s nullglob
for f in "$D"/good*.c; do
  bin/kefir -o "$T/k.s" "$f" 2>"$T/err"; rc=$?
  [ $rc -eq 0 ] || { head -3 "$T/err"; echo "valid program is not compiled: $(basename "$f") (exit $rc)"; exit 1; }
done
for f in "$D"/bad*.c; do
  bin/kefir -o "$T/k.s" "$f" 2>"$T/err"; rc=$?
  [ $rc -ne 0 ] || { echo "invalid program is compiled: $(basename "$f")"; exit 1; }
  [ $rc -lt 126 ] || { echo "compiler is killed: $(basename "$f") (exit $rc)"; exit 1; }
done
exit 0
'''
