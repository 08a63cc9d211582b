#!/bin/bash
# usage: run.sh REPODIR: runs each demonstration of the repaired defects on that tree
here=$(cd "$(dirname "$0")" && pwd); repo=$(cd "$1" && pwd)
. /opt/vp/env.sh; cd "$repo"
for p in verifiable mutator/batch storage/badger storage/postgres server/httprest; do
  d=$here/$(basename $p)
  o=$(mktemp); echo "{\"Replace\": {\"$repo/$p/x_defect_test.go\": \"$d/x_defect_test.go\"}}" > $o
  for t in $(grep -o '^func Test[A-Za-z]*' $d/x_defect_test.go | cut -c6-); do
    if timeout 60 bash $here/../run.sh -overlay $o -run "^$t\$" ./$p > $o.log 2>&1; then echo "ok   $p $t"; else echo "FAIL $p $t: $(grep -m1 -E 'panic:|_test.go|cannot|undefined' $o.log)"; fi
  done
  unlink $o; unlink $o.log
done
