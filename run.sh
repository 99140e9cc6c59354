#!/bin/bash
# ./run.sh check <property> | replay <file> | determinism <property> [n]
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root} LANG=C.UTF-8 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p bin
go build -o bin/vsim ./cmd/vsim || exit 3
[ "$1" = setup ] && exit 0
exec bin/vsim "$@"
