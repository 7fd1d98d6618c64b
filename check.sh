#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the analyzer when needed and decides one property on /repo's tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$here/.build/xgocheck
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" -name '*.go' -print -quit)" ]; then
	bash "$here/setup.sh" >&2 || { echo "cannot build the analyzer" >&2; exit 2; }
fi
exec "$bin" -property "$id" -repo /repo -verif "$here" -tier "$tier"
