#!/bin/bash
# builds the verifier from the committed sources (vendored modules, no network)
set -e
cd "$(dirname "$0")/tool"
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p ../bin
go build -o ../bin/govc .
