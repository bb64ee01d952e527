#!/bin/bash
# tools/seedtest.sh ID [tests] [check]: tries seeded/ID in a private copy of /repo (own mount namespace).
# Prints: demo on the clean tree, demo with the change, the stable tests ("tests"), the property's check ("check").
ID=$1; shift
HERE=$(dirname "$(dirname "$(realpath "$0")")")
S=$HERE/seeded/$ID
W=$(mktemp -d /tmp/sd.XXXXXX)
cp -a /repo "$W/repo"; cp -a "$HERE" "$W/verif"; rm -rf "$W/verif/seeded" "$W/verif/.git"
mkdir "$W/demo"; cp -a "$S"/. "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo"/meta.json
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cat > "$W/in.sh" <<X
mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif; cd /repo
git status --short | grep -v '^??' && echo "DIRTY"
timeout 300 bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1; echo "$ID demo clean: \$? (want 0)"
git apply "$S/patch.diff" 2>/dev/null || git apply "$W/demo/../patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh > "$W/build.log" 2>&1 || { echo "$ID: build fails"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/demo.log" 2>&1; echo "$ID demo patched: \$? (want nonzero)"; tail -3 "$W/demo.log"
for what in $*; do
  if [ \$what = tests ]; then
    bash /opt/vp/test.sh "$W/out.json" > "$W/tests.log" 2>&1
    python3 - <<P
import json
base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('$W/out.json'))
def passed(d):
    for k in ('passed', 'pass', 'stable'):
        if k in d: return set(d[k])
    return set(k for k, v in d.items() if v == 'passed')
missing = sorted(passed(base) - passed(out))
print('$ID tests: missing', len(missing), missing[:5])
P
  else
    cd /verif; s=\$(date +%s); VERIF_SEED=1 timeout 900 python3 run.py $PROP quick > "$W/check.log" 2>&1; echo "$ID check $PROP: rc \$? (want 1) in \$((\$(date +%s)-s)) s"; tail -3 "$W/check.log" | cut -c1-600; cd /repo
  fi
done
X
cp "$S/patch.diff" "$W/patch.diff"
unshare -m bash "$W/in.sh"
rm -rf "$W"
