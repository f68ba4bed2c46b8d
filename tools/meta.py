#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after edits)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def F(name, where):
    return {'name': name, 'where': where}


P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(),
         state=(), claim=None, na=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'state': list(state), 'mechanism': mech,
                 'observe_at': list(observe), 'hook_needed': None},
        claim=claim, na=na))


CURVES = ['dcf/curves/curve.py', 'dcf/curves/interestratecurve.py',
          'dcf/curves/creditcurve.py', 'dcf/curves/volatilitycurve.py']
LISTS = ['dcf/cashflows/cashflow.py', 'dcf/cashflows/contingent.py',
         'dcf/cashflows/payoffs.py']

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items()
                            if k not in ('claim', 'na')}) + '\n')

checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    cmd = '/opt/venv/bin/python -B check.py %s' % p['id']
    checks.append({
        'property': p['id'], 'quick_cmd': cmd,
        'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['claim'][0], 'level': 'exploration',
        'level_note': p['claim'][1]})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -B -m compileall -q sim check.py '
                     '>/dev/null; /opt/venv/bin/python -B -c '
                     '"import sys; sys.path.insert(0, \'/repo\'); import dcf"',
        'checks': checks, 'not_applicable': na,
        'notes': 'Deterministic simulation: every check runs seeded '
                 'simulated executions of the real dcf code of /repo (or of '
                 'VERIF_REPO) in one process tree. No hooks in /repo were '
                 'needed: every seam dcf needs is a collaborator handed to '
                 'it. VERIF_SEED selects the run seeds, VERIF_RUNS, '
                 'VERIF_WORKERS and VERIF_CAP bound a run. A replay file is '
                 'replayed with: check.py <id> --replay FILE.'}, f, indent=1)
print(len(P), 'properties', len(checks), 'checks')
