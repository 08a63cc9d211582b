#!/bin/bash
# seeded.sh [id...]: applies each seeded bug to a scratch copy of /repo and runs the
# check of its property (and the ids in ALSO) against it; prints which caught it.
here=$(cd "$(dirname "$0")" && pwd); vx=${VX:-/tmp/vx}
one() {
  i=$1; d=$here/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/sdXXXX); cp -a /repo "$t/repo"; mkdir "$t/v"; cp -r "$here/known_findings.txt" "$here/stub" "$t/v/"
  git -C "$t/repo" apply "$d/patch.diff" || echo "$i does not apply"
  for q in $p $ALSO; do
    if $vx -repo "$t/repo" -verif "$t/v" "$q" > "$t/out" 2>&1; then echo "MISSED $i $q"; else echo "caught $i $q: $(grep -v '^VIOLATION' "$t/out" | grep -v "^C[0-9][0-9]: " | head -1 | cut -c1-220)"; fi
  done
  find "$t" -mindepth 1 -delete; rmdir "$t"
}
export -f one; export here vx ALSO
ls ${@:+-d} ${@/#/$here/seeded/} $([ $# = 0 ] && echo "$here/seeded") | xargs -n1 basename | xargs -P4 -I{} bash -c 'one {}'
