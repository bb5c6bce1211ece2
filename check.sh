#!/bin/bash
# usage: check.sh C01 -- decides one property of /repo's current working tree
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
stale=1
if [ -x bin/vfcheck ]; then
  stale=0
  [ -n "$(find analyzer -name '*.go' -not -path '*/vendor/*' -newer bin/vfcheck -print -quit)" ] && stale=1
fi
if [ $stale = 1 ]; then bash setup.sh || { echo "cannot build the analyzer"; exit 2; }; fi
exec ./bin/vfcheck -prop "$1" -verif "$PWD"
