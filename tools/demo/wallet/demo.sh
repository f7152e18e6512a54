#!/bin/bash
# run in the repository's root: builds the wallet program (its home directory redirected to a scratch one)
# and demo.go against the tree, then runs demo.go
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/home"
cat >"$t/user.go" <<'X'
package user

import "os"

type User struct{ Uid, Gid, Username, Name, HomeDir string }

func Current() (*User, error) { return &User{HomeDir: os.Getenv("SCRATCH") + "/home"}, nil }
X
f="\"$PWD/internal/zuser/user.go\":\"$t/user.go\""
for g in cmd/bcwallet/*.go; do
	sed 's#^\(\s*\|import \)"os/user"#\1"github.com/levilutz/basiccoin/internal/zuser"#' "$g" >"$t/w_$(basename "$g")"
	f="$f,\"$PWD/$g\":\"$t/w_$(basename "$g")\""
done
for g in "$d"/*.go; do f="$f,\"$PWD/internal/zdemo/$(basename "$g")\":\"$g\""; done
echo "{\"Replace\":{$f}}" >"$t/o.json"
go build -buildvcs=false -overlay "$t/o.json" -o "$t/bcwallet" ./cmd/bcwallet || exit 2
SCRATCH="$t" HOME="$t/home" GOCACHE="$(go env GOCACHE)" GOPATH="$(go env GOPATH)" GOMODCACHE="$(go env GOMODCACHE)" go run -buildvcs=false -overlay "$t/o.json" ./internal/zdemo
