#!/bin/bash
# check.sh PROP [TIER]: decide one property on /repo's working tree.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
case $prop in
  C10) group=race ;;
  C29|C33) group=testbed ;;
  C0[1-9]|C32|C35) group=node ;;
  C1[1-8]|C28) group=codec ;;
  C19|C2[0-7]|C3[014]) group=sims ;;
  *) echo "unknown property $prop" >&2; exit 2 ;;
esac
if [ "$tier" = thorough ]; then budget=${VERIF_BUDGET:-600}; else budget=${VERIF_BUDGET:-40}; fi
export HOME=${HOME:-/root}
work=$(mktemp -d /tmp/verif-$prop.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$here/tools/build.sh" $group "$work" || { echo "build failed" >&2; exit 2; }
mkdir -p "$here/out" "$here/evidence"
"$work/harness" check -prop $prop -tier $tier -seed "$seed" -budget $budget \
  -out "$here/out" -evidence "$here/evidence/$prop.json" -known "$here/known_findings.txt"
