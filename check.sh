#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulation harness from /repo's
# working tree and searches for a violation of one property.
# Exit 0: held on everything explored; 1: violation; 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
seed=${VERIF_SEED:-1}
mkdir -p "$here/.work" "$here/evidence" "$here/replays" || exit 2
find "$here/.work" -maxdepth 1 -name "check-$prop-*" -mmin +120 -exec rm -rf {} + 2>/dev/null
work=$(mktemp -d "$here/.work/check-$prop-XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
rm -f "$here/evidence/$prop.json"

tag=
case $prop in
P15) tag=api_index ;;
P16) tag=api_pool ;;
P17) tag=api_tracker ;;
P18) tag=api_pbf ;;
P30) tag=zrace ;;
esac
# Part of these four drives a package's exported functions; when their shape
# has changed, the part that goes through the programs still runs.
if [ -n "$tag" ] && ! "$here/build.sh" "$work" "$tag" 2>"$work/err"; then
	[ $tag = zrace ] && { cat "$work/err" >&2; exit 2; }
	echo "note: the scenarios of $tag do not build against this tree, going on without them"
	tag=
	"$here/build.sh" "$work" "" || exit 2
elif [ -z "$tag" ]; then
	"$here/build.sh" "$work" "" || exit 2
fi

# cases per tier: fixed, so that one VERIF_SEED is one exploration; the wall
# limit only cuts off a machine much slower than the one they were chosen on
read -r runs wall < <("$here/sim/budget.sh" "$prop" "$tier")
"$work/zharness" run -prop "$prop" -tier "$tier" -seed "$seed" -runs "$runs" -wall "$wall" -workers 8 \
	-evidence "$here/evidence/$prop.json" -replays "$here/replays" -known "$here/KNOWN_FINDINGS.md" -meta "$here/sim/meta.json" -minimise 60
