"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
PY = '/opt/venv/bin/python'
TECH = 'contracts on the live functions; verification conditions generated from the current source and discharged by z3 (pydv)'
NOTE = ('Every obligation generated from the current source is discharged for all inputs, modulo: the models of numpy and builtins listed as trusted_base in the evidence, '
        'magnitudes as mathematical reals, one generic element per array. The same contracts are executed on the real package with generated inputs; cases listed as bounded_cases are only checked that way.')
CLAIMED = {}
def claim(ids, level='proof', tech=TECH, note=NOTE):
    for i in ids.split(): CLAIMED[i] = dict(level=level, technique=tech, level_note=note)
exec(open(os.path.join(os.path.dirname(__file__), 'claims.py')).read())
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = [dict(property=p['id'], quick_cmd='%s -m pydv.check %s --tier quick' % (PY, p['id']), thorough_cmd='%s -m pydv.check %s --tier thorough' % (PY, p['id']),
               evidence_file='evidence/%s.json' % p['id'], **CLAIMED[p['id']]) for p in props if p['id'] in CLAIMED]
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'no check yet (in progress)')) for p in props if p['id'] not in CLAIMED],
         notes='No hooks in /repo: the checks read and execute /repo\'s current source directly. See DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
