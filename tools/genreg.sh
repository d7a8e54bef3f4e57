#!/bin/bash
# Regenerates harness/h/registry.go from the harness function names.
cd "$(dirname "$0")/../harness/h" || exit 1
{
echo "// Code generated by tools/genreg.sh. DO NOT EDIT."
echo "package h"
echo
echo "// Registry maps harness names to functions for native replay."
echo "var Registry = map[string]func(){"
grep -ho '^func C[0-9]*_[A-Za-z0-9_]*()' *.go | sort | sed -E 's/func (.*)\(\)/\t"\1": \1,/'
echo "}"
} > registry.go.tmp && mv registry.go.tmp registry.go
