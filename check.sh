#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the symbolic executor and decides
# one property of /repo's current tree.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
mkdir -p bin
(cd gosym && go build -o ../bin/gosym .) || exit 2
exec bin/gosym check -prop "$1" -tier "${2:-quick}"
