#!/bin/bash
# Runs demo_test.go (beside this file) against the nanomux in the current
# directory: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
w=$(mktemp -d) || exit 1
trap '/bin/rm -rf "$w"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$w/overlay.json"
go test -overlay "$w/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
