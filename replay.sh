#!/bin/bash
# replay.sh FILE: runs a recorded violation again, against /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(cd "$(dirname "$1")" && pwd)/$(basename "$1")
work=$(mktemp -d "${TMPDIR:-/tmp}/replay-XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
case $(sed -n 's/^ *"property": "\(.*\)",$/\1/p' "$file" | head -1) in
P15) tag=api_index ;; P16) tag=api_pool ;; P17) tag=api_tracker ;; P18) tag=api_pbf ;; P30) tag=zrace ;; *) tag= ;;
esac
"$here/build.sh" "$work" "$tag" 2>"$work/err" || "$here/build.sh" "$work" "" || exit 2
"$work/zharness" replay "$file"
