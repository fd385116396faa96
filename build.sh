#!/bin/bash
# build.sh: builds the analyzer, offline, from the committed sources.
set -eu
cd "$(dirname "$0")"
mkdir -p bin
cd analyzer
GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off go build -o ../bin/analyzer.new .
mv ../bin/analyzer.new ../bin/analyzer
