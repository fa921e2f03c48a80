#!/bin/bash
# setup.sh: builds the symbolic executor from /verif/symgo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin
tmp=$(mktemp bin/symgo.XXXXXX) || exit 2
(cd symgo && go build -o "../$tmp" .) || { rm -f "$tmp"; exit 2; }
chmod 755 "$tmp" && mv -f "$tmp" bin/symgo
