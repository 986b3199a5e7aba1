#!/bin/bash
# Usage: run.sh setup | run.sh Cnn [quick|thorough] | run.sh replay HARNESS FILE.json
# Builds the symbolic engine when needed and decides one property on /repo's
# current working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME="${HOME:-/root}"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$V/bin" "$V/evidence" || exit 2
(cd "$V/engine" && go build -o "$V/bin/symgo" ./cmd/symgo) || { echo "cannot build the engine"; exit 2; }
case "$1" in
setup) exit 0 ;;
replay) exec "$V/bin/symgo" -verif "$V" -replay "$3" -only "^$2\$" -prop all -tier thorough ;;
*) exec "$V/bin/symgo" -verif "$V" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
