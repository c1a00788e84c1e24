"""Writes /verif/MANIFEST.json."""
import json, os, importlib, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    f = os.path.join(ROOT, 'contracts', pid + '.py')
    level, technique, note = 'exploration', None, None
    if os.path.exists(f):
        ns = {}
        for l in open(f):
            for k in ('LEVEL', 'TECHNIQUE', 'NOTE'):
                if l.startswith(k + ' = '):
                    ns[k] = eval(l.split('=', 1)[1])
        level, technique, note = ns['LEVEL'], ns['TECHNIQUE'], ns['NOTE']
    checks.append({'property': pid, 'quick_cmd': 'python3 -m dpv check ' + pid,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 -m dpv check ' + pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': technique or 'contract of the real functions checked on bounded inputs (stand-in for deductive verification)',
                   'level': level,
                   'level_note': note or 'Bounded: the postconditions are evaluated on the results of the real code for generated inputs; nothing is proved for other inputs.'})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'Checks build the native kernels from /repo in a scratch directory and never write in /repo. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
