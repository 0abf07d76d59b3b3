#!/bin/bash
# check.sh ID              run the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED)
# check.sh ID replay G N   re-run one recorded case
here=$(cd "$(dirname "$0")" && pwd)
id=$1
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
case $id in
  C07) variant=asan ;;
  C08) variant=tsan ;;
  *) variant=dbg ;;
esac
out=$("$here/build.sh" $variant) || { echo "$out"; echo "BUILD-ERROR property=$id: the harness could not be built from /repo"; exit 3; }
bin=$(tail -1 <<<"$out")
export VERIF_VARIANT=$variant
limit=800; [ "$VERIF_TIER" = thorough ] && limit=7200
mkdir -p "$here/evidence" "$here/replay"
rm -f "$here/evidence/$id.json"
tmp=$(mktemp -d "${TMPDIR:-/tmp}/hexomon.XXXXXX")
trap 'rm -rf "$tmp"' EXIT
export VERIF_SCRATCH=$tmp
case $variant in
  asan) export ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:symbolize=1:max_allocation_size_mb=4096" ;;
  tsan) export TSAN_OPTIONS="exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0:suppressions=$here/tsan.supp" ;;
esac
cd "$tmp" || exit 3
timeout -k 10 $limit "$bin" "$@" > "$tmp/stdout" 2> "$tmp/stderr"
rc=$?
grep -aE "^(VIOLATION|KNOWN-FINDING|INCONCLUSIVE|$id[: ])" "$tmp/stdout"
if [ $rc -eq 0 ] || [ $rc -eq 1 ]; then
  exit $rc
fi
tail -c 6000 "$tmp/stderr"
case $rc in
  2|3) exit $rc ;;
  124|137) echo "INCONCLUSIVE property=$id: the workload was stopped (exit $rc)"; exit 2 ;;
esac
# The process under observation died (signal, abort, sanitizer report).
mkdir -p "$here/replay"
rp=$here/replay/$id-$VERIF_SEED-crash.txt
{ echo "property=$id seed=$VERIF_SEED tier=$VERIF_TIER exit=$rc"; cat "$tmp/stdout"; tail -c 200000 "$tmp/stderr"; } > "$rp"
if [ ! -s "$here/evidence/$id.json" ]; then
  printf '{"property":"%s","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"run ended by a crash or sanitizer report","samples":["see %s"]},"wall_s":%s,"violations":1}\n' "$id" "$VERIF_TIER" "$VERIF_SEED" "$rp" "$SECONDS" > "$here/evidence/$id.json"
fi
echo "VIOLATION property=$id replay=$rp"
exit 1
