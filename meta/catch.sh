#!/bin/bash
# catch.sh [id...]: runs each planted bug's property check (and with ALL=1 every check) on a scratch copy with the bug applied
here=$(cd "$(dirname "$0")/.." && pwd); . "$here/env.sh"
bin=/tmp/an/x; mkdir -p /tmp/an
(cd "$here/analyzer" && go build -o $bin .) || exit 2
[ -f "$here/known_findings.txt" ] && cp "$here/known_findings.txt" /tmp/an/
ids=$*; [ -n "$ids" ] || ids=$(ls "$here/seeded")
one() {
 id=$1; w=$(mktemp -d /tmp/cw.XXXX); cp -a /repo $w/r && cd $w/r && git apply "$here/seeded/$id/patch.diff" || { echo "$id: APPLY FAILED"; rm -rf "$w"; return; }
 props=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
 [ -n "$ALL" ] && props=$($bin -list)
 for p in $props; do
  out=$($bin -property $p -repo $w/r -verif $w 2>/dev/null); rc=$?
  if [ $rc = 1 ]; then echo "$id: caught by $p: $(echo "$out" | grep '^key=' | cut -c5-120 | head -3 | tr '\n' ';')"; elif [ -z "$ALL" ]; then echo "$id: MISSED by $p rc=$rc"; fi
 done
 rm -rf "$w"
}
export -f one; export here bin ALL
echo $ids | tr ' ' '\n' | xargs -P 4 -I{} bash -c 'one {}'
