#!/bin/bash
# try.sh PATCH|-R:COMMIT|- ID...   runs checks against a scratch copy of /repo
# with the patch applied (or the commit reverted). Development aid only.
what=$1; shift
d=$(mktemp -d /tmp/try-XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
mkdir "$d/verif"
cp -a /verif/harness /verif/run.py /verif/checks.py /verif/known_findings.txt "$d/verif/"
sed -i "s#=> /repo#=> $d/repo#" "$d/verif/harness/go.mod"
cd "$d/repo" || exit 9
case $what in
-) ;;
-R:*) git revert --no-commit "${what#-R:}" >/dev/null 2>&1 || { echo "revert failed"; exit 9; } ;;
*) git apply "$what" || { echo "apply failed"; exit 9; } ;;
esac
. /opt/vp/env.sh
go build ./... || { echo "BUILD FAILED"; exit 9; }
if [ -n "$TESTS" ]; then go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok" | head -20; fi
cd "$d/verif" || exit 9
for id in "$@"; do
	python3 run.py "$id" >"$d/out" 2>&1
	rc=$?
	echo "$what $id rc=$rc $(grep -m1 '\[rapid\] \|VERIF-HANG\|^panic\|^fatal' "$d/out" | cut -c1-${W:-220}) $(tail -1 "$d/out" | cut -c1-100)"
	[ -n "$V" ] && tail -60 "$d/out" | cut -c1-600
done
