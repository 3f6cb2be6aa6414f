#!/bin/bash
# tryseed.sh ID: confirm a planted change in a scratch copy: applies, tests pass, demo 0 without / nonzero with it; then run its check.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"; S="$V/seeded/$1"
W=/tmp/seedtry.$1.$$; cp -a /repo "$W"
trap 'rm -rf "/tmp/seedtry.$1.$$"' EXIT
D=$W.demo; mkdir -p "$D"; cp -a "$S"/. "$D"; rm -f "$D"/*.diff "$D"/meta.json
(cd "$W" && bash "$D/demo.sh" >/dev/null 2>"$D/err0"); a=$?
git -C "$W" apply "$S/patch.diff" || { echo "$1: patch does not apply"; rm -rf "$D"; exit 1; }
(cd "$W" && bash "$D/demo.sh" >/dev/null 2>"$D/err"); b=$?
[ $a = 0 ] || cat "$D/err0"
(cd "$W" && PYTHONPATH=/opt/vp/plugin PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p bool_results --rootdir="$W" --timeout=120 --continue-on-collection-errors -o junit_family=xunit2 . >"$D/t" 2>&1); t=$?
echo "$1: demo unchanged=$a patched=$b tests=$t $(tail -1 "$D/t")"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
out=$(cd "$V" && VERIF_REPO="$W" VERIF_EVIDENCE="$D" ./check.sh "$P" quick 2>&1); c=$?
echo "$1: check $P exit=$c $(echo "$out" | grep -m1 VIOLATION)"
rm -rf "$D"
