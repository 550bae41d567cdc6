#!/bin/bash
# run.sh <property id> <quick|thorough>: builds the analyser (from the committed
# sources, vendored dependencies) and decides the property on /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME=/root
GO=/opt/veriftools/go1.26.10/bin/go
[ -x "$GO" ] || GO=$(command -v go1.26 || command -v go)
mkdir -p bin evidence
exec 9>bin/.lock
flock 9
(cd analyzer && "$GO" build -mod=vendor -buildvcs=false -o "$V/bin/analyzer.$$" . && mv -f "$V/bin/analyzer.$$" "$V/bin/analyzer") || { echo "analyzer does not build"; exit 2; }
flock -u 9
exec 9>&-
[ "${1:-}" = setup ] && exit 0
exec "$V/bin/analyzer" -repo "${REPO:-/repo}" -verif "$V" -tier "${2:-quick}" "${1:?property}"
