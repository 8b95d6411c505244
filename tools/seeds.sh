#!/bin/bash
# seeds.sh [ID...]: apply each planted bug to a scratch copy of /repo and run the check of its property on the copy
cd "$(dirname "$0")/.." || exit 2
(cd checker && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/checker .) || exit 2
one() {
	id=$1; prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	d=$(mktemp -d); cp -a /repo "$d/r"; mkdir "$d/v"; cp KNOWN_FINDINGS "$d/v/" 2>/dev/null
	git -C "$d/r" apply "$PWD/seeded/$id/patch.diff" || echo "$id: patch does not apply"
	s=$(date +%s); out=$(./bin/checker -repo "$d/r" -verif "$d/v" "$prop" 2>&1); rc=$?
	echo "$id $prop rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -v '^C[0-9]*:\|^VIOLATION' | head -1 | cut -c1-160)"
	rm -rf "$d"
}
export -f one
[ $# -gt 0 ] || set -- $(ls seeded)
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}' | sort
