#!/usr/bin/env python3
"""Run a recorded counterexample on the untouched package:  replay.py evidence/replay/<file>.json"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.environ.get('EMC2V_CHILD') != '1':
    e = dict(os.environ, EMC2V_CHILD='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    e.pop('PYTHONPATH', None)
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], e)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engine import patch, native          # noqa: E402

d = json.load(open(sys.argv[1]))
emc2 = patch.load_emc2()
from props import registry                # noqa: E402
r = native.run_native(emc2, registry.HARNESSES[d['harness']], d['params'], d['values'], d['draws'])
print(json.dumps(r, indent=1, default=str))
sys.exit(1 if r['failed'] else 0)
