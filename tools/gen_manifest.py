"""Writes MANIFEST.json from the harnesses present and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the Python source, assertions decided by z3 (SMT) with replay'
NOTE = {}
NA = {
    'C40': 'The C++, Go and Java libraries are not built by this sandbox\'s build (no Bazel, '
           'no Abseil/crypto dependencies, network absent); the sampling code depends on '
           'those and on whole-distribution statements, so no encoding is within reach.',
}
PENDING = 'No check has been built for it yet.'
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(V, 'harness', i + '.py')) and i not in NA:
    checks.append(dict(
        property=i, quick_cmd='./check.sh %s quick' % i,
        thorough_cmd='./check.sh %s thorough' % i, technique=TECH, level='other',
        evidence_file='evidence/%s.json' % i,
        level_note=NOTE.get(i, 'Holds for all values of the symbolic inputs within the '
                            'stated sizes, over ideal real arithmetic.')))
  else:
    na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
