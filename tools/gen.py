#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props/meta.py (needs no libraries)."""
import ast
import importlib.util
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('meta', os.path.join(HERE, 'props', 'meta.py'))
meta = importlib.util.module_from_spec(sp)
sp.loader.exec_module(meta)
META = meta.META
NA = getattr(meta, 'NA', {})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for k in sorted(META):
        f.write(json.dumps(META[k]) + '\n')
TECH = 'symbolic execution of the real Python functions, obligations decided by the z3 SMT solver; counterexamples replayed'
NOTE = ('Every feasible path of the real functions is executed symbolically within the bounds in the evidence file; each '
        'obligation is decided for all values on the path by z3 or by polynomial normal forms. Counterexamples count only '
        'after the unmodified code reproduces them. Floating point is treated as real arithmetic; outside the bounds nothing '
        'is claimed. Obligations the solver cannot settle are printed as INCONCLUSIVE and counted in the evidence.')
checks = [dict(property=k, quick_cmd='./check.py %s --tier quick' % k, thorough_cmd='./check.py %s --tier thorough' % k,
               evidence_file='evidence/%s.json' % k, technique=TECH, level='model_checking', level_note=NOTE)
          for k in sorted(META) if k not in NA]
m = dict(version=1, setup_cmd='python3 -c "import ast; ast.parse(open(\'check.py\').read())"', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks: the harnesses load the package from /repo and replace its module globals at run time.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
