#!/bin/bash
# build.sh PROG OUT [-race]: builds a check program from /repo's working tree.
cd "$(dirname "$0")/harness" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
prog=$1 out=$2
shift 2
go build -buildvcs=false "$@" -o "$out" "./$prog"
