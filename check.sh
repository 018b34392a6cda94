#!/bin/bash
# check.sh <property> quick|thorough [--replay <file>]
# Rebuilds the monitors against /repo's working tree and runs one of them.
# C23 and C26 have a second leg, the same monitor under a sanitizer.
# exit 0 = held, 1 = violation (VIOLATION line), anything else = check error.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="${1:?property}"; TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
case "$SEED" in (''|*[!0-9]*) SEED=$(printf %s "$SEED" | cksum | cut -d' ' -f1);; esac
CASE=(); KIND=plain
if [ "$3" = "--replay" ]; then
  read -r TIER SEED C KIND < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["tier"], d["seed"], d["case"], d.get("kind", "plain"))' "$4") || exit 2
  [ "$C" = -1 ] || CASE=(--case "$C")
fi
COMMON=(--tier "$TIER" --seed "$SEED" --replays "$V/evidence/replays" --known "$V/known-findings.txt")

if [ "$KIND" = plain ]; then
  bash "$V/build.sh" || { echo "build failed, see $V/.build/build.log" >&2; exit 2; }
  "$V/.build/release/csmon" run "$ID" "${COMMON[@]}" --evidence "$V/evidence/$ID.json" "${CASE[@]}"
  RC=$?
  # Only C26 promises that the process survives (stack overflow, abort).
  if [ "$ID" = C26 ] && { [ $RC = 134 ] || [ $RC = 139 ]; }; then
    python3 "$V/tools/leg.py" crash "$V" "$ID" "$TIER" "$SEED" "$RC"
    exit 1
  fi
  [ $RC = 0 ] || exit $RC
  [ "$3" = "--replay" ] && exit 0
fi
case "$ID" in
  C23) KIND=tsan; N=200; [ "$TIER" = thorough ] && N=1500 ;;
  C26) KIND=asan; N=150; [ "$TIER" = thorough ] && N=1500 ;;
  *) exit 0 ;;
esac
bash "$V/build.sh" $KIND || { echo "$KIND build failed" >&2; exit 2; }
LOGS="$(mktemp -d)" || exit 2
trap 'rm -r "$LOGS"' EXIT
export TSAN_OPTIONS="log_path=$LOGS/report:exitcode=0:halt_on_error=0"
export ASAN_OPTIONS="log_path=$LOGS/report:exitcode=99:detect_leaks=0:malloc_context_size=0:quarantine_size_mb=16"
CSMON_SLOW=1 "$V/.build/$KIND/x86_64-unknown-linux-gnu/release/csmon" run "$ID" "${COMMON[@]}" \
  --cases $N --budget 400 --evidence "$LOGS/leg.json" > "$LOGS/out"
RC=$?
grep -v '^KNOWN-FINDING' "$LOGS/out"
python3 "$V/tools/leg.py" report "$V" "$ID" "$TIER" "$SEED" "$RC" "$KIND" "$LOGS"
exit $?
