#!/bin/bash
# builds the analyser (offline, from vendored sources)
cd "$(dirname "$0")" || exit 2
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=vendor
mkdir -p bin && cd engine && go build -o ../bin/engine .
