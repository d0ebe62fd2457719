#!/bin/bash
# check.sh PROPERTY [tier]  - decide one property for the current working tree of /repo
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p bin
(cd govc && go build -o ../bin/govc .) || exit 2
[ "$1" = replay ] && exec bin/govc -replay "$2"
exec bin/govc -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
