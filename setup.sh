#!/bin/bash
# Builds the analyzer from /verif/analyzer (vendored dependencies, offline).
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin
cd analyzer
GOFLAGS=-mod=vendor go build -o "../bin/mlsvet.$$" .
mv -f "../bin/mlsvet.$$" ../bin/mlsvet
