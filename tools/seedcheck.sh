#!/bin/bash
# seedcheck.sh <id>...: runs the check of a planted bug's property with the bug in a scratch copy laid over /repo.
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    s=/tmp/seedcheck-$id
    mkdir -p "$s" && cp -a /repo "$s/repo" && git -C "$s/repo" checkout -q -- .
    git -C "$s/repo" apply "$d/patch.diff" || continue
    out=$(unshare -Urm bash -c "mount --bind $s/repo /repo && exec /verif/check.sh $prop" 2>&1); c=$?
    rm -rf "$s"
    if [ $c = 1 ] && echo "$out" | grep -q "VIOLATION property=$prop"; then echo "$id ($prop): CAUGHT"; else echo "$id ($prop): MISSED (exit $c)"; fi
    echo "$out" | tail -${LINES_SHOWN:-6} | cut -c1-300 | sed 's/^/    /'
done
