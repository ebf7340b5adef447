#!/bin/bash
# run.sh <property> [replay file]: rebuild the monitors against /repo's working tree, run one check.
# exit 0 held, 1 violation (with a VIOLATION line), 2 anything else
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
id=$1
mkdir -p evidence harness/target
. ./build.sh
case $id in C29|C30|C31) with=sim ;; C34) with=asan ;; *) with= ;; esac
build_monitor $with || { echo "BUILD FAILED"; tail -40 harness/target/build.log; exit 2; }
work=$(mktemp -d /tmp/lam-monitor.XXXXXX) || exit 2
trap 'cd /; rm -rf "$work"' EXIT
export MONITOR_OUT=$work/verdict TMPDIR=$work
timeout -k 10 "${MONITOR_TIMEOUT:-840}" "$MONITOR_BIN" "$id" ${2:+"$2"} >/dev/null 2>"$work/stderr"
rc=$?
[ -f "$work/verdict" ] && cat "$work/verdict"
case $rc in
  0|1|2) exit $rc ;;
esac
tail -5 "$work/stderr"
# the process died without a verdict: memory corruption (the monitors are safe Rust), unbounded recursion
# or an absurd allocation in the code under test
case $rc in 132|134|135|136|139) crash=1 ;; *) crash= ;; esac
if [ -n "$crash" ] || grep -qE "has overflowed its stack|memory allocation of [0-9]+ bytes failed|capacity overflow" "$work/stderr"; then
  mkdir -p evidence/replay
  tail -20 "$work/stderr" >"evidence/replay/$id.txt"
  echo "the process died with status $rc while it ran the code under test" | tee -a "evidence/replay/$id.txt"
  echo "VIOLATION property=$id replay=$VERIF_DIR/evidence/replay/$id.txt"
  exit 1
fi
echo "INCONCLUSIVE: monitor ended with status $rc"
exit 2
