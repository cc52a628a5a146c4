#!/bin/bash
# check.sh <property>: decide one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
V=$PWD
if [ ! -x .build/bin/vthrift ] || [ -n "$(find analyzer -maxdepth 1 -name '*.go' -newer .build/bin/vthrift 2>/dev/null)" ]; then
  ./setup.sh >&2 || exit 2
fi
exec .build/bin/vthrift -check "$1" -repo "${VERIF_REPO:-/repo}" -verif "$V"
