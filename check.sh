#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Rebuilds the engine, then decides PROPERTY on /repo's current working tree.
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
./build-engine.sh || exit 2
exec ./.bin/gosym check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
