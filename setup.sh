#!/bin/bash
# Builds the static checker into /verif/.build (ignored by git).
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
mkdir -p "$V/.build"
cd "$V/checker" || exit 1
PATH="/usr/local/go/bin:$PATH:/opt/veriftools/go1.27.3/bin" GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local go build -o "$V/.build/chk.$$" . && mv "$V/.build/chk.$$" "$V/.build/chk"
