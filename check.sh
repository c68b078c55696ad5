#!/bin/bash
# check.sh ID | check.sh -replay FILE: decide a property of the code in /repo by simulation.
# VERIF_SEED and VERIF_TIER (quick or thorough) are taken from the environment.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
args=()
for a; do
	[ -f "$a" ] && a=$(realpath "$a")
	args+=("$a")
done
cd "$here/sim" || exit 2
go build -o "$tmp/simcheck" ./simcheck || { echo "check.sh: cannot build simcheck" >&2; exit 2; }
TMPDIR="$tmp" "$tmp/simcheck" -verif "$here" "${args[@]}"
