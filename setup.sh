#!/bin/bash
# Builds the machinery once, to warm the build cache; every check rebuilds what it needs.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
go build -o /dev/null ./tools/rewrite && go vet ./vsched ./harn >/dev/null 2>&1
nr="-d=checkptr=0 -race=false -l"
go build -race -gcflags=all=-d=checkptr=0 "-gcflags=verif/vsched=$nr" "-gcflags=verif/shim/...=$nr" ./vsched ./shim/... ./harn
exit 0
