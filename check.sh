#!/bin/bash
# Builds the analyser from /verif/checker and decides one property on /repo's working tree.
# usage: check.sh PROPERTY
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
(cd "$here/checker" && go build -o "$tmp/zkcheck" .) || { echo "the checker does not build"; exit 2; }
unset GOFLAGS
"$tmp/zkcheck" -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -repo "${REPO:-/repo}" -dir "$here"
