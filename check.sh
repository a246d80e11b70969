#!/bin/bash
# usage: check.sh <property> [quick|thorough] [gxcheck flags...]
# Decides one property on /repo's current working tree.
. "$(dirname "$0")/env.sh"
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
work=$(mktemp -d /tmp/gxcheck.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 3' INT TERM
(cd "$VERIF_DIR" && go build -trimpath -o "$work/gxcheck" gxsim/cmd/gxcheck) || { echo "check.sh: the driver does not build" >&2; exit 3; }
"$work/gxcheck" -verif "$VERIF_DIR" -work "$work" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" "$@"
