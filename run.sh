#!/bin/bash
# run.sh PROPERTY quick|thorough: the check of one property.
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
[ -x "$D/bin/symgo" ] || bash "$D/setup.sh" || exit 2
exec "$D/bin/symgo" -verif "$D" -prop "$1" -tier "$2"
