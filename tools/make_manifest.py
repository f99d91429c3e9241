#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (claims = the ids in harness/plan.py)."""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(HERE / 'harness'))
from plan import PLAN  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe='', state=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=[observe or 'return values of the public functions and methods'], hook_needed=None),
                  level_note=level_note, technique=technique))


S = 'mocat/src/'
exec((HERE / 'tools' / 'property_table.py').read_text())

with open(HERE / 'properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('level_note', 'technique')}) + '\n')

TECH = ('TLA+ specification checked with TLC; traces of the real code validated against it by TLC'
        ' (and behaviours enumerated by TLC replayed in the real code where the state space is finite)')
checks = [dict(property=p['id'], quick_cmd=f"python3 run_check.py {p['id']} quick",
               thorough_cmd=f"python3 run_check.py {p['id']} thorough",
               technique=p['technique'] or TECH, level='model_checking', level_note=p['level_note'])
          for p in P if p['id'] in PLAN]
na = [dict(property=p['id'], reason='the check for this property is not built yet') for p in P if p['id'] not in PLAN]
json.dump(dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='no hooks are needed: the public interface exposes the state', source_commits=[]),
               checks=checks, not_applicable=na), open(HERE / 'MANIFEST.json', 'w'), indent=1)
