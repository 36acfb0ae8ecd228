#!/bin/bash
# usage: check.sh PROPERTY [thorough | replay CONTRACT SEED | concrete [CONTRACT]]
# Verifies the contracts of one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p .bin evidence
bin=.bin/govc
(cd tool && go build -o ../$bin .) || exit 2
prop=$1; shift
case "$1" in
  replay) exec ./$bin -prop "$prop" -contract "$2" -seed "$3" ;;
  concrete) exec ./$bin -prop "$prop" -concrete -contract "$2" -replay "${3:-5}" ;;
  debug) exec ./$bin -prop "$prop" -child -v -contract "$2" ;;
  thorough) exec ./$bin -prop "$prop" -thorough ;;
  *) exec ./$bin -prop "$prop" ;;
esac
