#!/bin/bash
# check.sh PROPERTY TIER   builds the simulation from /repo's working tree and searches
# check.sh replay FILE     replays a violation against /repo's working tree
cd "$(dirname "$0")" || exit 3
V=$PWD
D=$(mktemp -d /tmp/finchsim.XXXXXXXX) || exit 3
trap '/bin/rm -rf "$D"' EXIT
python3 sim/build.py "${FINCH_SRC:-/repo}" "$D" || exit 3
if [ "$1" = replay ]; then
  "$D/check" replay "$2"
  exit $?
fi
"$D/check" run "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$V"
exit $?
