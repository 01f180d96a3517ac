#!/bin/bash
# Builds everything the checks need (each check also builds it for itself).
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod
cd "$(dirname "$0")" || exit 2
mkdir -p bin
(cd gosym && go build -o ../bin/gosym .) && (cd harness && go build -o /dev/null ./replay)
