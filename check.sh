#!/bin/bash
# check.sh PROPERTY [tier]: decide one property for the current tree of /repo
cd "$(dirname "$0")"
need=0
[ -x bin/govc ] || need=1
[ $need = 1 ] || { [ -n "$(find tool -name '*.go' -newer bin/govc -not -path '*/vendor/*' | head -1)" ] && need=1; }
if [ $need = 1 ]; then bash ./setup.sh || exit 1; fi
exec ./bin/govc -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -verif "$PWD"
