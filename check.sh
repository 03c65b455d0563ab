#!/bin/bash
# check.sh ID [quick|thorough]: decide one property from /repo's current source
cd "$(dirname "$0")" || exit 2
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
export VERIF_DIR="$PWD"
unset GOFLAGS
if ! [ -x bin/engine ] || [ -n "$(find engine -name '*.go' -newer bin/engine -print -quit 2>/dev/null)" ]; then
  ./setup.sh || exit 2
fi
exec bin/engine check "$@"
