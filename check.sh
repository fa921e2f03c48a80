#!/bin/bash
# check.sh Cnn [quick|thorough]: decides one property against the current /repo.
# Rebuilds the symbolic executor, re-encodes /repo's current source, explores, replays natively.
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
. ./env.sh
bash ./setup.sh || exit 2
exec ./bin/symgo -prop "$prop" -tier "$tier"
