#!/bin/bash
# Checks that the analyser builds offline; every check builds it again from source.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd "$here/checker" && go build -o /dev/null .
