"""Writes seeded/<id> for a planted bug whose demonstration is a reactor program run by the interpreter in harness/rx.

mkseed.py ID MUTATED_TREE REPLAY [SEEDS]   (meta.json is written beforehand by hand, in seeded/<id>)
The demonstration runs the program under a number of schedules and compares the sorted executions of reactions with those of the
unchanged tree; it is made of a copy of the harness at that time and does not depend on the rest of /verif.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import rp

SH = r'''#!/bin/bash
# Runs a fixed program of reactors under %(seeds)d schedules on virtual time and compares the executions of its reactions
# (kind, reaction, time, microstep, hash of what it saw) with the expected ones. Usage: demo.sh (in the tree to test).
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
SRC="$R/core/clock.c $R/core/environment.c $R/core/lf_token.c $R/core/mixed_radix.c $R/core/port.c $R/core/reactor_common.c $R/core/tag.c
 $R/core/utils/*.c $R/core/utils/hashset/*.c $R/lib/*.c $R/low_level_platform/impl/src/lf_unix_clock_support.c
 $R/low_level_platform/impl/src/lf_linux_support.c $R/low_level_platform/impl/src/lf_atomic_gcc_clang.c
 $R/low_level_platform/impl/src/lf_platform_util.c $R/platform/impl/*.c $R/version/impl/src/*.c $R/logging/impl/*.c %(extra)s"
SRC=$(ls -d $SRC 2>/dev/null %(filter)s)
for i in include include/core include/core/federated include/core/modal_models include/core/platform include/core/threaded include/core/utils \
 include/api low_level_platform/api tag/api trace/api trace/api/types version/api logging/api platform/api core/federated/RTI; do INC="$INC -I$R/$i"; done
D="-w -std=gnu11 -O1 -g -D_GNU_SOURCE -DPLATFORM_Linux -DINITIAL_EVENT_QUEUE_SIZE=10 -DINITIAL_REACT_QUEUE_SIZE=10 -DLOG_LEVEL=0 -DRX=1 %(defs)s $INC"
cd "$T"
for f in $SRC; do echo "$f"; done | xargs -P 8 -I{} sh -c 'gcc -c {} -o $(echo {} | tr / _).o '"$D %(rtflags)s" || exit 2
for f in $H/*.c; do gcc -c $f -o h_$(basename $f).o $D || exit 2; done
gcc -o rx *.o %(wrap)s -lpthread -lm || exit 2
bad=0
for s in $(seq 1 %(seeds)d); do
  sed "s/^[0-9]* [0-9]* [0-9]* [0-9]*/$s $((s %% 2)) 3 %(mem)s/" "$H/prog.txt" > p.txt
  timeout -s KILL 20 ./rx p.txt > out.txt 2> err.txt; rc=$?
  awk '$1=="B"||$1=="D"{k[$2]=$1" "$2" "$3" "$4} $1=="E"{print k[$2], $3} $1=="X"||$1=="M"||$1=="K"{print} $1=="F"{print "F", $2}' out.txt | LC_ALL=C sort > got.txt
  echo "exit $rc" >> got.txt
  if ! cmp -s got.txt "$H/expected.txt"; then bad=$((bad+1)); [ $bad = 1 ] && { echo "schedule $s:"; diff "$H/expected.txt" got.txt | head -8; }; fi
done
echo "$bad of %(seeds)d schedules differ"
[ $bad = 0 ]
'''


def main():
    sid, tree, replay = sys.argv[1:4]
    seeds = int(sys.argv[4]) if len(sys.argv) > 4 else 40
    case = json.load(open(replay))
    case = case.get("case", case)
    p = case["p"]
    v, cfg = case["runs"][int(sys.argv[5]) if len(sys.argv) > 5 else -1]
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    for f in ("rx.c", "vt.c", "vt.h"):
        shutil.copy(os.path.join(V, "harness/rx", f), d)
    parts = v.split("-")
    mem = "mem" in parts
    if mem:
        shutil.copy(os.path.join(V, "harness/rx/tsanhooks.c"), d)
    open(os.path.join(d, "prog.txt"), "w").write(rp.encode(p, cfg) + "\n")
    modal = "modal" in parts
    single = parts[0] == "single"
    extra = ("$R/core/modal_models/*.c " if modal else "") + ("$R/core/reactor.c" if single else "$R/core/threaded/*.c")
    from vlib import build
    sub = dict(seeds=seeds, extra=extra, filter="| grep -v lf_semaphore" if single else "", mem=str(cfg.get("mem", 0) or 7) if mem else "0",
               defs=("-DLF_SINGLE_THREADED=1" if single else "-DNUMBER_OF_WORKERS=0 -DNUMBER_OF_WATCHDOGS=1 -DSCHEDULER=" + build.SCHED[parts[0]])
               + (" -DMODAL_REACTORS=1" if modal else ""),
               rtflags="-fsanitize=thread --param=tsan-instrument-func-entry-exit=0" if mem else "",
               wrap=build.WRAP_FLAGS[0] + " -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free")
    open(os.path.join(d, "demo.sh"), "w").write(SH % sub)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    diff = subprocess.run(["git", "-C", tree, "diff", "HEAD"], capture_output=True, text=True).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    exp = os.path.join(d, "expected.txt")
    open(exp, "w").write("")
    # the expected output comes from the unchanged tree
    out = subprocess.run(["bash", "-c", "sed 's|^\\[ $bad = 0 \\]|cp got.txt /tmp/expected.%s|' %s/demo.sh > %s/x.sh; bash %s/x.sh" % (sid, d, d, d)],
                         cwd="/repo", capture_output=True, text=True)
    shutil.copy("/tmp/expected.%s" % sid, exp)
    os.unlink("/tmp/expected.%s" % sid)
    os.unlink(os.path.join(d, "x.sh"))
    for t, want in (("/repo", 0), (tree, 1)):
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=t, capture_output=True, text=True)
        print(t, "exit", r.returncode, "(expected %d)" % want, r.stdout[-500:], r.stderr[-300:])


main()
