"""writes MANIFEST.json: a check for every property with a harness, the rest under not_applicable"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'level_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': 'symbolic execution of the real Python code with z3 deciding every branch and assertion; '
                                    'counterexamples replayed natively' + (', in-memory OS stand-in' if i in VFS else ''),
                       'level': 'model_checking', 'level_note': NOTES.get(i, DEFAULT) })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'CODEPREP_SX (unused: no hooks in /repo)', 'enable': 'nothing to enable: the checks instrument the modules while importing them from /repo',
               'source_commits': []},
     'notes': 'See DESIGN.md. All checks run offline on /opt/venv-pypy/bin/pypy3 (the interpreter of the repository) and z3.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
