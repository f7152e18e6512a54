#!/bin/bash
# run in the repository's root: builds demo.go against the tree and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
f=
for g in "$d"/*.go; do f="$f,\"$PWD/internal/zdemo/$(basename "$g")\":\"$g\""; done
echo "{\"Replace\":{${f#,}}}" >"$t/o.json"
cd "$PWD" && SCRATCH="$t" go run -buildvcs=false -overlay "$t/o.json" ./internal/zdemo
