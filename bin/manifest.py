#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the head comments of checks/*.py.

A check's module docstring holds lines 'TECHNIQUE: ...' and 'LEVEL: ...' (the level note)."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks, na = [], []
    for l in open(os.path.join(V, 'properties.jsonl')):
        pid = json.loads(l)['id']
        f = os.path.join(V, 'checks', pid + '.py')
        if not os.path.exists(f):
            na.append({'property': pid, 'reason': 'check not built yet'})
            continue
        doc = ast.get_docstring(ast.parse(open(f).read())) or ''
        tech = [x[10:].strip() for x in doc.split('\n\n') if x.startswith('TECHNIQUE:')]
        note = [x[6:].strip() for x in doc.split('\n\n') if x.startswith('LEVEL:')]
        if not tech or not note:
            sys.exit('%s lacks TECHNIQUE/LEVEL' % f)
        flat = lambda s: ' '.join(s.split())
        checks.append({'property': pid,
                       'quick_cmd': 'python3 /verif/bin/check.py %s --tier quick' % pid,
                       'thorough_cmd': 'python3 /verif/bin/check.py %s --tier thorough' % pid,
                       'evidence_file': '/verif/evidence/%s.json' % pid,
                       'technique': flat(tech[0]), 'level': 'model_checking', 'level_note': flat(note[0])})
    m = {'version': 1, 'setup_cmd': 'python3 /verif/bin/setup.py',
         'hooks': {'guard': 'none', 'enable': 'no hooks in /repo; harness sources are overlaid with go build -overlay',
                   'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks: TLA+ specification in /verif/spec model-checked with TLC, its behaviours replayed on the real code '
                  '(or recorded behaviour of the real code validated against it). Exit 2 = no answer.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
