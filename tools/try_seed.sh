#!/bin/bash
# try_seed.sh <seed id> [check ids..]: tries a planted bug in copies of /repo and /verif; nothing outside a scratch folder changes.
# Environment: SNAP (copy of /verif used as the lower layer), NOTEST=1 (skip build, tests and demo).
set -u
id=$1; shift
root=$(cd "$(dirname "$0")/.." && pwd)
snap=${SNAP:-$root}
seed=$root/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX)
mkdir -p "$w"/{vu,vw,demo}; cp -a --reflink=auto /repo "$w/repo"
cp "$seed"/* "$w/demo/"; cp "$seed/patch.diff" "$w/patch.diff"
rm -f "$w"/demo/*.diff "$w"/demo/meta.json
cat > "$w/in.sh" <<'I'
mount --bind $w/repo /repo || exit 9
mount -t overlay overlay -o lowerdir=$snap,upperdir=$w/vu,workdir=$w/vw /verif || exit 9
cd /repo
if [ -z "${NOTEST:-}" ]; then
  timeout 300 bash $w/demo/demo.sh > $w/demo0.log 2>&1; echo "$id demo on unchanged tree: $? (want 0)"
fi
git apply $w/patch.diff || { echo "$id patch does not apply"; exit 9; }
if [ -z "${NOTEST:-}" ]; then
  bash /opt/vp/build.sh > $w/build.log 2>&1 || { echo "$id DOES NOT BUILD"; tail -20 $w/build.log; exit 9; }
  timeout 300 bash $w/demo/demo.sh > $w/demo1.log 2>&1; echo "$id demo on patched tree: $? (want nonzero)"
  tail -4 $w/demo1.log | cut -c1-300
  bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1
  python3 - $w/t.json $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
ok=set(t.get('passed',[])) if isinstance(t.get('passed'),list) else {k for k,v in t.items() if v in('pass','passed',True)}
miss=[x for x in b if x not in ok]
print(sys.argv[2],'stable tests failing:',len(miss),miss[:8])
P
fi
for c in $checks; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh $c quick > $w/$c.log 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" $w/$c.log; then r=CAUGHT; elif [ $rc = 0 ]; then r=quiet; else r="rc=$rc"; fi
  echo "$id check $c: $r ($(( $(date +%s) - s )) s)"
  [ $r = quiet ] || [ -z "${SHOW:-}" ] || head -${SHOW} $w/$c.log | cut -c1-1500
  [ "$r" = "rc=$rc" ] && tail -5 $w/$c.log | cut -c1-600
done
I
export w snap id seed checks="$*"
unshare -Urm bash "$w/in.sh"
mkdir -p /tmp/seedlogs; cp "$w"/*.log /tmp/seedlogs/ 2>/dev/null
chmod -R u+rwX "$w" 2>/dev/null; rm -rf "$w"
