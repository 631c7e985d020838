#!/bin/bash
# bash oracle.sh PROPERTY [seconds]: look for a concrete failing input of PROPERTY on the real code.
# Run by gvc only after a proof obligation has failed; it decides nothing by itself.
# Exits 1 and prints FAILING INPUT when it finds one.
cd "$(dirname "$0")" || exit 3
. ./env.sh
secs=${2:-${ORACLE_SECS:-75}}
tmp=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$tmp"' EXIT
sed "s#=> /repo#=> ${REPO:-/repo}#" oracle/go.mod >"$tmp/go.mod"
: >"$tmp/go.sum"
(cd oracle && go build -modfile "$tmp/go.mod" -o "$tmp/oracle" .) >"$tmp/build" 2>&1 || { echo "cannot build the oracle against this tree"; cat "$tmp/build"; exit 3; }
run() { (ulimit -v 16000000; exec timeout $((secs + 40)) "$tmp/oracle" "$1" "$secs" "${VERIF_SEED:-1}") >"$tmp/out" 2>&1; }
run "$1"; rc=$?
if [ $rc -eq 0 ] || grep -q "FAILING INPUT" "$tmp/out"; then head -c 15000 "$tmp/out"; exit $rc; fi
# The process died (stack or memory exhausted): run again, one case at a time, to learn on which input.
export ORACLE_TRACE=$tmp/case
: >"$ORACLE_TRACE"
secs=$((secs * 2)); run "$1"; rc=$?
if grep -q "FAILING INPUT" "$tmp/out"; then head -c 15000 "$tmp/out"; exit 1; fi
if [ $rc -ne 0 ]; then
  echo "FAILING INPUT for $1: the process dies"
  head -c 3000 "$tmp/out"; echo; echo "on:"; head -c 6000 "$ORACLE_TRACE"
  exit 1
fi
echo "the process died once with 8 workers and not again"; exit 0
