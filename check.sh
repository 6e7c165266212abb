#!/bin/bash
# usage: ./check.sh ID | setup | replay FILE
cd "$(dirname "$0")" || exit 3
export VSIM_VERIF="$PWD"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
mkdir -p build evidence || exit 3
export GOCACHE="$PWD/build/gocache" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GOTELEMETRY=off
export HOME="${HOME:-/root}"
(cd sim && go build -buildvcs=false -o ../build/vsim .) || exit 3
case "$1" in
setup) exec ./build/vsim setup ;;
replay) exec ./build/vsim replay "$2" ;;
C*) exec ./build/vsim check "$1" ;;
*) exec ./build/vsim "$@" ;;
esac
