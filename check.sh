#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]: verify the property's contracts on /repo's current source.
cd "$(dirname "$0")" || exit 3
verif=$PWD
. ./env.sh
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$tmp"' EXIT
if [ -x bin/gvc ] && [ -z "$(find gvc -newer bin/gvc -type f)" ]; then
  gvc=$verif/bin/gvc
else
  (cd gvc && go build -o "$tmp/gvc" .) || { echo "cannot build gvc"; exit 3; }
  gvc=$tmp/gvc
fi
t=10
[ "$VERIF_TIER" = thorough ] && t=60
"$gvc" -verif "$verif" -repo "${REPO:-/repo}" -spec "$verif/spec" -t $t -prop "$1"
