#!/bin/bash
# builds the analyzer, offline
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/.build"
cd "$here/analyzer" && go build -o "$here/.build/xgocheck.$$" . && mv "$here/.build/xgocheck.$$" "$here/.build/xgocheck"
