#!/bin/bash
# run.sh PROPERTY TIER: decide one property on /repo's working tree
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
bin=/verif/bin/chk
mkdir -p /verif/bin
(cd /verif/checker && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || exit 2
exec "$bin" -prop "$1" -tier "${2:-quick}" -root /repo -verif /verif
