#!/bin/bash
# usage: check.sh PROPERTY [-quick|-thorough]
# Builds the analyser if needed, then analyses /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || { echo "analyser build failed"; exit 2; }
export VERIF_DIR="$here"
export HOME=/root
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOMEMLIMIT=12GiB
exec "$here/bin/checker" "$@"
