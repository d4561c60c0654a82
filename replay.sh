#!/bin/bash
# replay.sh FILE [-trace]: re-execute the recorded run of a replay file against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1"); shift
prop=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$file" | head -1)
case $prop in
  C10) group=race ;;
  C29|C33) group=testbed ;;
  C0[1-9]|C32|C35) group=node ;;
  C1[1-8]|C28) group=codec ;;
  *) group=sims ;;
esac
work=$(mktemp -d /tmp/verif-replay.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$here/tools/build.sh" $group "$work" || exit 2
"$work/harness" replay -file "$file" "$@"
