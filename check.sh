#!/bin/bash
# usage: check.sh ID            run the check of a property (tier in VERIF_TIER)
#        check.sh ID FILE       replay the case in FILE
# Builds the harness against the working tree of /repo (or VERIF_REPO).
ID=$1
REPLAY=${2:-}
DIR=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
T=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T VERIF_REPO=$REPO
: "${GOMEMLIMIT:=8GiB}"
export GOMEMLIMIT
cd "$DIR/harness" || exit 2

src=$REPO
tags=plain
case $ID in
C01 | C23)
	# These run on an instrumented copy of the sources.
	go build -o "$T/instr" ./cmd/instr || exit 2
	if "$T/instr" "$REPO" "$T/repo" >"$T/instr.log" 2>&1; then
		src=$T/repo
		tags=instr
	else
		cat "$T/instr.log" >&2
		echo "warning: the sources can't be instrumented" >&2
	fi
	;;
esac
sed "s|=> .*|=> $src|" go.mod >"$T/go.mod"
: >"$T/go.sum"
if ! go build -modfile="$T/go.mod" -tags "$tags" -o "$T/harness" .; then
	[ $tags = instr ] || exit 2
	echo "warning: the instrumented sources can't be built" >&2
	sed "s|=> .*|=> $REPO|" go.mod >"$T/go.mod"
	go build -modfile="$T/go.mod" -tags plain -o "$T/harness" . || exit 2
fi
if [ "$ID" = C23 ]; then
	sed "s|=> .*|=> $REPO|" go.mod >"$T/go.race.mod"
	: >"$T/go.race.sum"
	CGO_ENABLED=1 go build -race -modfile="$T/go.race.mod" -tags plain -o "$T/harness-race" . || {
		echo "warning: no race detector" >&2
		rm -f "$T/harness-race"
	}
fi
race=
[ -x "$T/harness-race" ] && race=$T/harness-race
mkdir -p "$T/scratch"
args=(-id "$ID" -dir "$DIR" -scratch "$T/scratch" -tier "$TIER" -seed "$SEED")
[ -n "$REPLAY" ] && args+=(-replay "$REPLAY")
VERIF_RACE_BIN=$race "$T/harness" run "${args[@]}"
