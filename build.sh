#!/bin/bash
# Builds the analyser from the committed sources (offline, vendored x/tools).
here=$(cd "$(dirname "$0")" && pwd)
out="$here/bin/checker"
if [ -x "$out" ] && [ -z "$(find "$here/checker" -newer "$out" -name '*.go' -print -quit)" ]; then exit 0; fi
mkdir -p "$here/bin"
cd "$here/checker" || exit 1
HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build \
  /opt/veriftools/go1.27.3/bin/go build -o "$out.tmp.$$" . && mv "$out.tmp.$$" "$out"
