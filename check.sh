#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]: decides one property on /repo's
# working tree. Exit 0: held; 1: VIOLATION; anything else: no verdict.
cd "$(dirname "$0")" || exit 2
id=$1
shift
case "$1" in quick | thorough)
	export VERIF_TIER=$1
	shift
	;;
esac
race=
case "$id" in
C0[1-9] | C1[0-2] | C30) prog=core ;;
C1[3-8]) prog=ora ;;
C26 | C28) prog=xcf race=-race ;;
C19 | C2[0-9] | C31 | C32) prog=xcf ;;
*)
	echo "unknown property: $id" >&2
	exit 2
	;;
esac
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
if ! ./build.sh $prog "$dir/check" $race >"$dir/log" 2>&1; then
	cat "$dir/log"
	echo "cannot build the check for $id from /repo"
	exit 2
fi
"$dir/check" "$id" "$@"
