#!/bin/bash
# build.sh GROUP WORKDIR [SRC]: rewrites the packages of SRC (default /repo) that harness GROUP
# needs into WORKDIR/tree and builds WORKDIR/harness.
# Group testbed also rewrites two dependencies (the Vultr client and its HTTP retry layer).
set -e
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
group=$1; work=$2; src=${3:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
case $group in
  node)  pkgs=node,ldpc; hook=ldpc; race= ;;
  race)  pkgs=node,ldpc; hook=ldpc; race=node,ldpc ;;
  codec) pkgs=lt,iblt,ldpc,riblt; hook=; race= ;;
  sims)  pkgs=newsim,simulator,des,microbenchmarks,lt,iblt,riblt; hook=lt,iblt,riblt,des; race=microbenchmarks ;;
  testbed) pkgs=testbed; hook=; race=testbed ;;
  *) echo "unknown group $group" >&2; exit 2 ;;
esac
mkdir -p "$work"; rm -rf "${work:?}/tree"
(cd "$here/simgo" && go build -o "$work/simgo" .)
ext=
if [ "$group" = testbed ]; then
  for m in github.com/vultr/govultr github.com/hashicorp/go-retryablehttp; do
    d=$(cd "$src" && go list -m -f '{{.Dir}}' $m)
    ext=$ext${ext:+,}$m=$d
  done
fi
"$work/simgo" -src "$src" -out "$work/tree" -pkgs "$pkgs" -hook "$hook" -race "$race" -ext "$ext"
dir=$group; [ "$group" = race ] && dir=node
cp "$src/go.sum" "$work/h.sum"
{
  echo "module verif/harness"; echo; echo "go 1.23"; echo
  echo "require github.com/yangl1996/rateless-set-reconcile v0.0.0"
  echo "require verif/simrt v0.0.0"
  sed -n '/^require (/,/^)/p' "$src/go.mod"
  echo "replace verif/simrt => $here/simrt"
  echo "replace github.com/yangl1996/rateless-set-reconcile => $work/tree"
  if [ "$group" = testbed ]; then
    echo "require verif/simx v0.0.0"
    echo "replace verif/simx => $here/simx"
    for m in github.com/vultr/govultr github.com/hashicorp/go-retryablehttp; do
      echo "replace $m => $work/tree/ext/$(basename $m)"
    done
  fi
} > "$work/h.mod"
cd "$here/harness"
go build -modfile="$work/h.mod" -o "$work/harness" "./$dir"
