#!/bin/bash
# Builds the symbolic executor (offline).
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
cd "$D/engine" && go build -o "$D/bin/symgo" . && echo "built $D/bin/symgo"
