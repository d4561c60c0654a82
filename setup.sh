#!/bin/bash
# setup.sh: warm the Go build cache by building every harness once.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
work=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
for g in node race codec sims testbed; do "$here/tools/build.sh" $g "$work/$g" || exit 1; done
