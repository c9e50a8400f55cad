#!/bin/bash
# Builds the analyser from the committed sources into bin/ (offline).
cd "$(dirname "$0")/analyzer" || exit 2
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/permcheck .
