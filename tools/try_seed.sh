#!/bin/bash
# tools/try_seed.sh ID [CHECK...]   validate seeded/ID in a scratch copy of /repo (demo 0 then nonzero, stable tests pass), then run CHECKs there
# (default: its property).  NOTEST=1 skips the tests, NOCHECK=1 the checks.
exec 9>/tmp/try_seed.lock; flock 9
id=$1; shift
d=/verif/seeded/$id
w=/tmp/seed_$id
rm -rf "$w"; git clone -q /repo "$w"; cp -a /repo/.venv "$w" 2>/dev/null
trap 'rm -rf "$w"' EXIT INT TERM
run_demo() { (cd "$w" && timeout 300 sh "$d/demo.sh" >/tmp/seed_$id.demo 2>&1); echo $?; }
a=$(run_demo)
git -C "$w" apply "$d/patch.diff" || { echo "$id DOES NOT APPLY"; exit 9; }
b=$(run_demo)
echo "$id demo $a $b: $(tail -1 /tmp/seed_$id.demo | cut -c1-120)"
if [ -z "$NOTEST" ]; then
  (cd "$w"; export PYTHONPATH=$w PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mpl
   /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --no-cov >/tmp/seed_$id.tests 2>&1; tail -1 /tmp/seed_$id.tests)
  grep -E "^(FAILED|ERROR)" /tmp/seed_$id.tests | head -3
fi
[ -n "$NOCHECK" ] && exit
c=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $c; do
  VP_REPO=$w timeout 880 python3 /verif/check.py $p > /tmp/seed_$id.$p.log 2>&1; echo "   $p exit $?"; grep -E "mechanism|INCONC|not reached" /tmp/seed_$id.$p.log | sed 's/mode=.*//' | sort | uniq -c | head -5
done
