#!/bin/bash
# Builds the analyser from the committed files, offline.
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/analyze .
