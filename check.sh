#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
# Builds the check of one property against the current working tree of /repo and runs it.
# exit 0: held on everything explored, 1: VIOLATION, 2: error of the check
set -u
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$here"
cmd="$(echo "$id" | tr 'A-Z' 'a-z')"
src="$here/harness/cmd/$cmd"
[ -d "$src" ] || { echo "no check for $id" >&2; exit 2; }
work="$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX")"
trap 'rm -rf -- "$work"' EXIT
export TMPDIR="$work"
flags=()
# the module file is a copy, so that building never writes into /verif
cp "$here/harness/go.mod" "$work/go.mod" && cp /repo/go.sum "$work/go.sum" || exit 2
[ -f "$src/BUILDFLAGS" ] && read -r -a flags < "$src/BUILDFLAGS"
# files of /repo replaced while building this check, one path per line (harness/overlay/<path>.txt)
if [ -f "$src/OVERLAY" ]; then
	{ printf '{"Replace":{'; sep=
	while read -r path; do printf '%s"/repo/%s":"%s"' "$sep" "$path" "$here/harness/overlay/$path.txt"; sep=,; done < "$src/OVERLAY"
	printf '}}'; } > "$work/overlay.json"
	flags+=(-overlay "$work/overlay.json")
fi
if ! (cd "$here/harness" && go build -modfile="$work/go.mod" "${flags[@]}" -o "$work/check" "./cmd/$cmd") >"$work/build.log" 2>&1; then
	cat "$work/build.log" >&2
	echo "inconclusive: the check of $id does not build against /repo" >&2
	exit 2
fi
cd "$work" || exit 2
"$work/check"
