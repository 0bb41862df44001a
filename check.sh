#!/bin/bash
# check.sh <property> [engine flags]: decide one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
"$here/setup.sh" || { echo "cannot build the engine"; exit 2; }
prop=$1; shift
exec "$here/bin/vpengine" -root "$here" -prop "$prop" -tier "${VERIF_TIER:-quick}" "$@"
