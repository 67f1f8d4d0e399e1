#!/bin/bash
# builds the symbolic executor from the committed sources, offline
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin ../evidence
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off go build -o ../bin/gosym .
