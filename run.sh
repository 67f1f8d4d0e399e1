#!/bin/bash
# debugging: run.sh <pkgsuffix> <fn> [params] [budget]
cd /verif/engine && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off go build -o /verif/bin/gosym . || exit 1
cd /verif; timeout ${5:-300} bin/gosym run -pkg flychain/zzverif/$1 -fn $2 -p "$3" -t ${4:-60} -replay 2>&1 | grep -v 'witness: ok=true\|^load\|^   asserts'
