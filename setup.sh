#!/bin/bash
# setup.sh: builds the simulation harness once, which fills Go's build cache and
# shows that it builds; every check builds it again from /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.work" "$here/evidence" "$here/replays"
work=$(mktemp -d "$here/.work/setup-XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work" "" && "$work/zharness" list >/dev/null && echo "setup: ok"
