#!/bin/bash
# Runs demo_test.go (next to this file) inside package PKG of the repository in the current directory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
echo "{\"Replace\":{\"$PWD/PKG/zz_demo_test.go\":\"$d/demo_test.go\"}}" > "$t/o.json"
timeout 200 go test -vet=off -count=1 -timeout 150s -overlay "$t/o.json" -run 'TestDemo' ./PKG
