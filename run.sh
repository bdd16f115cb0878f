#!/bin/bash
# run.sh ID: decide one property of /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
mkdir -p "$VERIF/bin"
BIN=$VERIF/bin/gsesa.$$
trap 'rm -f "$BIN"' EXIT
(cd sa && go build -o "$BIN" .) || { echo "cannot build the analyser" >&2; exit 2; }
"$BIN" -prop "$1" -repo "${REPO:-/repo}" -verif "$VERIF"
