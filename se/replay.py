"""python -m se.replay FILE: re-runs a recorded counterexample on the real code."""
import importlib, json, sys
from se import runner
rec = json.load(open(sys.argv[1]))
mod = importlib.import_module('harness.' + rec['property'])
case = [c for c in mod.cases(rec.get('tier', 'quick')) if c.name == rec['case']][0]
f, env = runner.run_concrete(case, rec['inputs'])
print('inputs used:', env.used)
for x in f:
  print('FAILED %s: %s' % tuple(x))
sys.exit(1 if f else 0)
