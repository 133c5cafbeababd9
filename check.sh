#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Proves the property's contracts on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
build() {
  (
    export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
    unset GOROOT GOWORK
    export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
    cd "$here/gver" && mkdir -p ../bin && go build -o ../bin/gver .
  )
}
build || { echo "cannot build the verifier"; exit 2; }
. /opt/vp/env.sh
cd "$here" || exit 2
exec "$here/bin/gver" -check "$1" -tier "$tier"
