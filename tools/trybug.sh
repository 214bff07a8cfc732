#!/bin/bash
# tools/trybug.sh <seeded id> [check ids... | all]
# Tries a planted bug in private copies of /repo and /verif (bind mounted over the originals in an own
# mount namespace): build, stable tests, demo with and without the patch, then the checks.
id=$1; shift
src=/verif/seeded/$id
[ -f "$src/patch.diff" ] || { echo "no such bug $id"; exit 2; }
prop=$(python3 -c "import json,sys;print(json.load(open('$src/meta.json'))['property'])")
checks=${*:-$prop}
[ "$checks" = all ] && checks=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
tmp=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp -a /repo "$tmp/repo"
mkdir "$tmp/verif"
for f in /verif/* /verif/.git*; do case $f in /verif/seeded|/verif/.git) ;; *) cp -a "$f" "$tmp/verif/";; esac; done
cp -a "$src" "$tmp/bug"; rm -f "$tmp/bug/patch.diff" "$tmp/bug/meta.json"
cp "$src/patch.diff" "$tmp/patch.diff"
cat > "$tmp/inner.sh" <<'I'
mount --bind "$tmp/repo" /repo || exit 3
mount --bind "$tmp/verif" /verif || exit 3
cd /repo
if [ -z "$SKIPDEMO" ]; then
timeout 300 bash "$tmp/bug/demo.sh" > "$tmp/demo0.log" 2>&1; d0=$?
fi
git apply "$tmp/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh > "$tmp/build.log" 2>&1 || { echo "$id: does not build"; grep -A8 '^error' "$tmp/build.log"; exit 1; }
timeout 600 bash /opt/vp/test.sh "$tmp/o.json" > "$tmp/test.log" 2>&1
missing=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$tmp/o.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x.get(k),list): return set(map(str,x[k]))
    return set()
B=names(b); O=names(o)
print(len(B), 'stable', sorted(B-O)[:5])
P
)
timeout 300 bash "$tmp/bug/demo.sh" > "$tmp/demo1.log" 2>&1; d1=$?
echo "$id: demo clean=$d0 patched=$d1; tests: $missing; $(tail -1 "$tmp/demo1.log" | cut -c1-150)"
[ $d0 != 0 ] && tail -5 "$tmp/demo0.log"
fi
cd /verif
for c in $checks; do
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $c quick > "$tmp/c.log" 2>&1; rc=$?
    echo "$id: $c rc=$rc $(( $(date +%s) - s ))s $(grep -B1 '^VIOLATION' "$tmp/c.log" | head -1 | cut -c1-260)"
done
I
export tmp id checks SKIPDEMO
unshare -Urm bash "$tmp/inner.sh"
