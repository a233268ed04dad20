#!/bin/bash
# Builds the explorer and the instrumented executable once. Each check rebuilds what changed and
# reports what does not build.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export VERIF_DIR=$PWD
. ./env.sh
build_mc
build_cli
exit 0
