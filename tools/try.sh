#!/bin/bash
# try.sh ID...: runs the quick check of the property of each planted bug (or of PROPS="C01 ...")
# against a copy of /repo with the bug. SEEDED=dir: where the bugs are. /repo is not touched.
here=$(cd "$(dirname "$0")/.." && pwd)
S=${SEEDED:-$here/seeded}
T=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -a "$here" "$T/v"; rm -rf "$T/v/.git" "$T/v/seeded"
sed -i "s#=> /repo#=> $T/r#" "$T/v/mc/go.mod"; sed -i "s#^REPO=/repo#REPO=$T/r#" "$T/v/mc/c23.sh"
for id in "$@"; do
  rm -rf "$T/r"; cp -a /repo "$T/r"
  git -C "$T/r" apply "$S/$id/patch.diff" || { echo "$id patch does not apply"; continue; }
  own=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$S/$id/meta.json")
  for p in ${PROPS:-$own}; do
    s=$(date +%s); (cd "$T/v" && ./check.sh $p quick > "$T/log" 2>&1); rc=$?
    v=$(grep -m1 "^VIOLATION property=$p" "$T/log")
    if [ $rc = 1 ] && [ -n "$v" ]; then r=CAUGHT; elif [ $rc = 0 ]; then r=MISSED; else r="rc=$rc $(tail -1 "$T/log" | cut -c1-200)"; fi
    echo "$id $p $r $(( $(date +%s)-s ))s"
  done
done
