#!/bin/bash
# refactors.sh [name…]: applies each behaviour-preserving rewrite of tools/refactors to a
# scratch clone of /repo and runs every check on it (CHECKS="c01 c02" for some);
# prints what is not quiet or not complete.
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo"
cd "$here/tools/refactors"
for f in ${@:-*.diff}; do
	f=${f%.diff}.diff
	git -C "$w/repo" checkout -q . && git -C "$w/repo" clean -fdq
	git -C "$w/repo" apply "$here/tools/refactors/$f" || { echo "$f does not apply"; continue; }
	for c in ${CHECKS:-$(ls "$here/harness" | grep '^c[0-9]')}; do
		s=$(date +%s)
		(cd "$here" && ./run.sh dev "${c^^}" -repo "$w/repo" -budget 400 >"$w/out" 2>&1)
		rc=$?
		sum=$(grep -E "^${c^^} quick:" "$w/out")
		echo "$f ${c^^} rc=$rc $(($(date +%s) - s))s $(echo "$sum" | grep -oE '(exhaustive|inconclusive|violations)=[^ ]*' | tr '\n' ' ')"
		if [ $rc != 0 ] || ! grep -q 'exhaustive=true' "$w/out"; then cp "$w/out" "/tmp/refactor-$f-$c.log"; fi
	done
done
