#!/bin/bash
# Runs the demonstrations of the planted bugs named on the command line in a
# scratch clone, before and after the change. Not part of any check.
root=$(cd "$(dirname "$0")/.." && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
git clone -q /repo "$tmp/r"
cd "$tmp/r" || exit 2
for id in "$@"; do
	timeout 300 bash "$root/seeded/$id/demo.sh" > "$tmp/0" 2>&1; a=$?
	git apply "$root/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	timeout 300 bash "$root/seeded/$id/demo.sh" > "$tmp/1" 2>&1; b=$?
	git checkout -q -- .
	if [ $a = 0 ] && [ $b != 0 ]; then echo "$id: ok"; else echo "$id: WRONG $a $b"; tail -n 8 "$tmp/0"; tail -n 8 "$tmp/1"; fi
done
