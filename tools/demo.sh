#!/bin/bash
# Runs main.go (beside this file) against the go-xmp tree in the current directory.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W="$(mktemp -d)" || exit 99
trap 'rm -rf "$W"' EXIT
cp "$D/main.go" "$W/main.go"
cp "$R/go.mod" "$W/go.mod"
cp "$R/go.sum" "$W/go.sum" 2>/dev/null
cd "$W"
sed -i 's#^module .*#module demo#' go.mod
echo 'require github.com/trimmer-io/go-xmp v0.0.0
replace github.com/trimmer-io/go-xmp => '"$R" >> go.mod
timeout 120 go run .
