#!/bin/bash
# Build the verifier (gvc) into /verif/bin, which git ignores.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin
(cd gvc && go build -o ../bin/gvc .) || exit 1
