#!/bin/bash
# usage: run.sh REPODIR: shows the known findings on that tree (each test fails while the finding stands)
here=$(cd "$(dirname "$0")" && pwd); repo=$(cd "$1" && pwd)
. /opt/vp/env.sh; cd "$repo"
o=$(mktemp); echo "{\"Replace\": {\"$repo/verifiable/x_finding_test.go\": \"$here/x_finding_test.go\", \"$repo/verifiable/x_helper_test.go\": \"$here/../seeds/verifiable.go.txt\"}}" > $o
bash $here/../run.sh -overlay $o -run TestFinding ./verifiable; r=$?
unlink $o; exit $r
