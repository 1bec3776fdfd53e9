#!/bin/bash
# Apply behaviour-preserving edits to a scratch copy of /repo and run checks on it: all must stay quiet.
# usage: refactor.sh FILE.diff [C01 ...]
set -u
diff=$(realpath "$1"); shift
d=$(mktemp -d /tmp/refactor-XXXX); trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; cd "$d/repo" || exit 2
git apply --whitespace=nowarn "$diff" || { echo "DOES NOT APPLY $diff"; exit 2; }
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
go build ./... || exit 2
go test ./... 2>&1 | grep -v "no test files\|^ok" | head -20
ids=${*:-$(/verif/bin/analyze -list)}
mkdir -p "$d/verif/evidence"; cp /verif/KNOWN_FINDINGS.txt "$d/verif/" 2>/dev/null
bad=0
for c in $ids; do
  out=$(VERIF_TIER=quick timeout 900 /verif/bin/analyze -repo "$d/repo" -verif "$d/verif" -property "$c" 2>&1); rc=$?
  if [ $rc != 0 ]; then bad=1; echo "ALARM $c rc=$rc"; echo "$out" | grep -v "^KNOWN" | cut -c1-500 | head -6; fi
done
[ $bad = 0 ] && echo "quiet: $(basename "$diff")"
