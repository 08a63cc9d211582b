#!/bin/bash
# usage: run.sh PKGDIR PATTERN [more go test args]: run tests of the repo in the
# current directory with the objecthash stand-in beside this script
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'find "$t" -mindepth 1 -delete; rmdir "$t"' EXIT
cp go.mod "$t/go.mod"; cp go.sum "$t/go.sum"
echo "replace github.com/continusec/objecthash => $here/objecthash" >> "$t/go.mod"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go test -modfile="$t/go.mod" -count=1 "$@"
