#!/bin/bash
# Builds the symbolic engine from /verif/engine (offline, Go 1.27).
set -e
cd "$(dirname "$0")/engine"
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
unset GOROOT
G=/opt/veriftools/go1.27.3/bin/go; [ -x $G ] || G=go
mkdir -p ../.bin
$G build -o ../.bin/gosym .
