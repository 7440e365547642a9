# seedtest.sh ID [check-part...]: patch in /repo, demo with cbuild libs, run check quick, undo
id=$1; d=/verif/seeded/$id; cd /repo || exit
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
demo() { bash /tmp/demorun.sh $id; }
if [ -z "$NODEMO" ]; then demo >/tmp/demo.$id.clean 2>&1; echo "$id clean demo rc=$?"; fi
git apply $d/patch.diff || exit 1
if [ -z "$NODEMO" ]; then demo >/tmp/demo.$id.bad 2>&1; echo "$id patched demo rc=$?"; tail -2 /tmp/demo.$id.bad | cut -c1-200; fi
for c in ${CHECKS:-$p}; do (cd /verif; timeout 900 python3 run.py $c quick >/tmp/seed.$id.$c 2>&1; echo "$id check $c rc=$? $(grep -c '^VIOLATION' /tmp/seed.$id.$c)"; grep '^VIOLATION' /tmp/seed.$id.$c | head -2 | cut -c1-300); done
git checkout -q -- .
