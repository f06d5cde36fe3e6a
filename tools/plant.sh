#!/bin/bash
# plant.sh ID : /verif/seeded/ID/edit.py (path, old, new triples in EDITS) -> patch.diff, then
# confirms in a scratch copy: builds, stable tests pass, demo passes before and fails after,
# and runs the property's check on the changed copy.  [NOTEST=1 skips the tests]
ID=$1; D=/verif/seeded/$ID; S=/tmp/bug-$ID
mkdir -p $S && cp -a /repo $S/ && R=$S/repo
python3 - "$D" "$R" <<'P' || exit 1
import sys
D, R = sys.argv[1:]
ns = {}
exec(open(D + '/edit.py').read(), ns)
for path, old, new in ns['EDITS']:
  s = open(R + '/' + path).read()
  assert s.count(old) == 1, (path, s.count(old), old)
  open(R + '/' + path, 'w').write(s.replace(old, new))
P
git -C $R diff > $D/patch.diff
echo "== demo on unchanged: $(cd /repo && bash $D/demo.sh >$S/d0 2>&1; echo $?)"; tail -3 $S/d0
echo "== demo on changed: $(cd $R && bash $D/demo.sh >$S/d1 2>&1; echo $?)"; tail -3 $S/d1
if [ -z "$NOTEST" ]; then
export PYTHONPATH=$R/python/dp_accounting:$R/learning PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
(cd $R && /opt/venv/bin/python -m pytest -q -c /dev/null --rootdir=$R -p no:cacheprovider \
  -o python_files='*_test.py' -n 8 --timeout=300 --continue-on-collection-errors \
  --ignore=learning/clustering/clustering_algorithm_test.py \
  -o junit_family=xunit2 --junitxml=$S/junit.xml python/dp_accounting learning > $S/t.log 2>&1)
python3 /opt/vp/results.py $S/out.json junit:$S/junit.xml
python3 - $S/out.json <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open(sys.argv[1]))
m = b - set(o['passed'])
print('== tests:', 'all stable pass' if not m else 'BROKEN %d: %s' % (len(m), sorted(m)[:4]))
P
fi
unset PYTHONPATH
for P in $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])") $2; do
  (cd /verif && VERIF_REPO=$R timeout 900 ./check.sh $P quick > $S/check.log 2>&1; echo "== check $P: $?"; grep -h VIOLATION $S/check.log | head -3; tail -1 $S/check.log | cut -c1-300)
done
rm -rf "/tmp/bug-$ID"
