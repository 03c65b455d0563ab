#!/bin/bash
# usage: run in the repository; runs the Go test beside this file inside package $PKG
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$tmp/m.mod"; cp "$repo/go.sum" "$tmp/m.sum"
echo "{\"Replace\": {\"$repo/@PKG@/zz_demo_test.go\": \"$here/demo_test.go.txt\"}}" > "$tmp/ov.json"
export GOFLAGS="-mod=mod -modfile=$tmp/m.mod"
timeout 280 go test @FLAGS@ -overlay "$tmp/ov.json" -vet=off -count=1 -run '^TestDemo' "./@PKG@"
