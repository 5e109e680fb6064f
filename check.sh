#!/bin/bash
# check.sh ID quick|thorough: decides a property on /repo's working tree.
# Exit 0: it held. Exit 1 and a VIOLATION line: it's broken. Else: no answer.
set -u
id=$1 tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
. "$here/env.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/vsim-build-XXXXXX") || exit 2
trap '/bin/rm -rf "$work"' EXIT
mkdir -p "$here/evidence" "$here/out/replays"
/bin/rm -f "$here/evidence/$id.json"

secs=${VSIM_SECS:-}
if [ -z "$secs" ]; then
	case $tier in
	thorough) secs=420 ;;
	*) secs=40 ;;
	esac
fi
race=
[ "$id" = C02 ] && race=-race

. "$here/build.sh"
vsim_build "$work" "$race" || exit 2
"$work/vsim" check -prop "$id" -tier "$tier" -seed "$seed" -secs "$secs" -out "$here/out/replays" \
	-evidence "$here/evidence/$id.json" -mode "$VSIM_MODE" -points "$VSIM_POINTS"
rc=$?
[ $rc -le 1 ] || rc=2
exit $rc
