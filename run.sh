#!/bin/sh
# run.sh ID...: decide properties from the source in /repo (or $XREPO); builds the checker if it is not there yet
dir=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
if ! (cd "$dir/checker" && go build -o "$dir/bin/checker" .) >&2; then
	for id in "$@"; do
		mkdir -p "$dir/evidence"
		echo "the checker does not build" >"$dir/evidence/$id.violation.txt"
		echo "VIOLATION property=$id replay=$dir/evidence/$id.violation.txt"
	done
	exit 1
fi
unset GOFLAGS
"$dir/bin/checker" -repo "${XREPO:-/repo}" -verif "$dir" "$@"
rc=$?
if [ $rc -gt 1 ]; then # the checker itself broke down
	for id in "$@"; do
		mkdir -p "$dir/evidence"
		echo "the checker broke down, exit $rc" >"$dir/evidence/$id.violation.txt"
		echo "VIOLATION property=$id replay=$dir/evidence/$id.violation.txt"
	done
	rc=1
fi
exit $rc
