#!/bin/bash
# check.sh <property id>: build the property's monitor against /repo's working
# tree and run it. Exit 0 held / 1 VIOLATION / anything else: no verdict.
set -u
id=$1
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
lc=$(echo "$id" | tr A-Z a-z)
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export VERIF_EVIDENCE=${XV_EVIDENCE:-$VERIF/evidence}
mkdir -p "$VERIF_EVIDENCE"
rm -f "$VERIF_EVIDENCE/$id.json" "$VERIF_EVIDENCE/$id.replay.txt"
work=$(mktemp -d "${TMPDIR:-/tmp}/xv.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
cp harness/go.mod harness/go.sum "$work/" || exit 2
# XV_REPO: another tree to judge (development only; the checks judge /repo)
[ -n "${XV_REPO:-}" ] && sed -i "s#=> /repo#=> $XV_REPO#" "$work/go.mod"
flags=()
[ -f "harness/cmd/$lc/RACE" ] && flags+=(-race)
if ! (cd harness && go build -modfile="$work/go.mod" "${flags[@]}" -o "$work/mon" "./cmd/$lc") >"$work/build.log" 2>&1; then
	cat "$work/build.log"
	echo "BUILD FAILED: no verdict for $id"
	exit 3
fi
export XV_WORK=$work GORACE="log_path=$work/race halt_on_error=0 exitcode=0"
limit=850
[ "$VERIF_TIER" = thorough ] && limit=14000
# thorough: the same monitor first as a 32-bit program (quick workload), where int
# has 32 bits; skipped where that cannot be built or run.
if [ "$VERIF_TIER" = thorough ] && [ "$lc" != c21 ] && [ "$lc" != c27 ] &&
	(cd harness && GOARCH=386 CGO_ENABLED=0 go build -modfile="$work/go.mod" -o "$work/mon32" "./cmd/$lc") >"$work/build.log" 2>&1; then
	VERIF_TIER=quick timeout -k 5 800 "$work/mon32" >"$work/out" 2>"$work/err"
	rc=$?
	echo "32-bit run: exit $rc, $(head -1 "$work/out")"
	if [ $rc -eq 1 ]; then
		cat "$work/out"
		exit 1
	fi
fi
timeout -k 5 $limit "$work/mon" >"$work/out" 2>"$work/err"
rc=$?
cat "$work/out"
head -c 20000 "$work/err" >&2
if [ $rc -eq 0 ] || [ $rc -eq 1 ]; then
	exit $rc
fi
# The process died: a panic or fatal error raised on a repository stack is a violation.
if grep -qE '^(panic:|fatal error:)' "$work/err" && grep -q 'github.com/renthraysk/xtorm' "$work/err"; then
	cp "$work/err" "$VERIF_EVIDENCE/$id.replay.txt"
	printf '{"property":"%s","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"run died with a panic or fatal error inside the repository","samples":["see replay file"]},"wall_s":0,"violations":1}\n' "$id" "$VERIF_TIER" "$VERIF_SEED" >"$VERIF_EVIDENCE/$id.json"
	echo "VIOLATION property=$id replay=$VERIF_EVIDENCE/$id.replay.txt"
	exit 1
fi
exit $rc
