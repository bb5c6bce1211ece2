#!/bin/bash
# Builds the analyzer from the committed sources (vendored, offline).
cd "$(dirname "$0")/analyzer" || exit 2
export PATH=/opt/veriftools/go1.26.10/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=off
unset GOROOT
mkdir -p ../bin && go build -mod=vendor -o ../bin/vfcheck.tmp.$$ . && mv -f ../bin/vfcheck.tmp.$$ ../bin/vfcheck
