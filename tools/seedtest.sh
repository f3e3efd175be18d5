#!/bin/bash
# seedtest.sh <id>...: confirms planted bugs in scratch copies: the patch applies and builds, the stable tests pass,
# the demonstration succeeds without it and fails with it.
for id in "$@"; do
    d=/verif/seeded/$id
    s=/tmp/seedtest-$id
    [ -f "$d/patch.diff" ] || { echo "$id: no patch"; continue; }
    git -C /repo apply --check "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
    mkdir -p "$s/demo" && cp -a /repo "$s/repo" && cp -a "$d/." "$s/demo/" && rm -f "$s/demo/patch.diff" "$s/demo/meta.json"
    git -C "$s/repo" checkout -q -- . 
    unshare -Urm bash -s "$id" "$s" "$d/patch.diff" "$NOTESTS" <<'X'
id=$1 s=$2 p=$3 notests=$4
cp "$p" "$s/p.diff"
mount --bind "$s/repo" /repo
cd /repo
bash "$s/demo/demo.sh" >"$s/clean.log" 2>&1; c=$?
git apply "$s/p.diff" || exit 1
bash /opt/vp/build.sh >"$s/build.log" 2>&1; b=$?
bash "$s/demo/demo.sh" >"$s/bug.log" 2>&1; w=$?
t=skipped
if [ -z "$notests" ]; then
bash /opt/vp/test.sh "$s/out.json" >"$s/test.log" 2>&1
t=$(python3 - "$s/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-o); print("all pass" if not m else f"{len(m)} FAIL: {m[:4]}")
P
)
fi
v=GOOD; [ $c = 0 ] && [ $b = 0 ] && [ $w != 0 ] || v=BAD
case $t in *FAIL*) v=BAD;; esac
echo "$id: $v demo clean=$c build=$b demo bug=$w tests: $t"
[ $v = GOOD ] || { echo "--- clean"; tail -15 "$s/clean.log"; echo "--- build"; tail -15 "$s/build.log"; echo "--- bug"; tail -15 "$s/bug.log"; }
[ -n "$SHOW" ] && { echo "--- bug"; tail -25 "$s/bug.log"; }
exit 0
X
    rm -rf "$s"
done
