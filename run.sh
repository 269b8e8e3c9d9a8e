#!/bin/bash
# usage: run.sh ID   decides one property on /repo's current tree
cd "$(dirname "$0")"
if [ ! -x bin/analyzer ] || [ -n "$(find analyzer -newer bin/analyzer \( -name '*.go' -o -name '*.txt' -o -name 'go.*' \) -print -quit)" ]; then
  bash build.sh || { echo "cannot build the analyser"; exit 2; }
fi
ulimit -v unlimited 2>/dev/null
exec bin/analyzer -check "$1" -repo "${REPO:-/repo}" -verif "$PWD"
