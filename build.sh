#!/bin/bash
# builds the verifier from the committed files, offline
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/vc .
