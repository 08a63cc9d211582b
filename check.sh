#!/bin/bash
# check.sh ID...: builds the analyser from the committed source and decides the
# given properties on the current source of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
out="$(mktemp -d)" || exit 1
trap 'rm -rf "$out"' EXIT
fail() {
  mkdir -p "$here/evidence"
  echo "$1" | tee "$here/evidence/$id.violations.txt"
  echo "VIOLATION property=$id replay=$here/evidence/$id.violations.txt"
  exit 1
}
# the newest Go there is (the analyser needs 1.26 or later)
for d in /usr/local/go/bin $(ls -d /opt/veriftools/go1.*/bin 2>/dev/null | sort -t. -k2,2nr); do
  case "$("$d/go" env GOVERSION 2>/dev/null)" in go1.2[6-9]*|go1.[3-9][0-9]*|go[2-9]*) PATH="$d:$PATH"; break;; esac
done
export PATH
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
(cd "$here/tool" && go build -o "$out/vds" .) >"$out/log" 2>&1 || fail "the analyser does not build: $(cat "$out/log")"
unset GOFLAGS
"$out/vds" -repo /repo -verif "$here" "$@"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || fail "the analyser ended with status $rc"
exit $rc
