"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
from registry import GROUPS_OF, LEVELS, NOTE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='bash /opt/vp/build.sh ext && python3 -m py_compile run.py harness/*.py',
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in GROUPS_OF:
        m['checks'].append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 run.py %s' % i,
                                thorough_cmd='VERIF_TIER=thorough python3 run.py %s' % i,
                                evidence_file='evidence/%s.json' % i,
                                technique='TLA+ specification checked with TLC; behaviours generated from it are replayed in the real code and the recorded traces are judged by TLC against it',
                                level=LEVELS.get(i, 'model_checking'), level_note=NOTE.get(i, NOTE['*'])))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check built yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
