#!/bin/bash
# Compiles every monitor once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp harness/go.mod harness/go.sum "$work/" || exit 2
cd harness || exit 2
rc=0
mkdir "$work/bin"
go build -modfile="$work/go.mod" -o "$work/bin/" ./cmd/... || rc=1
for d in cmd/*/; do
	[ -f "$d/RACE" ] && { go build -race -modfile="$work/go.mod" -o "$work/bin/" "./$d" || rc=1; }
done
exit $rc
