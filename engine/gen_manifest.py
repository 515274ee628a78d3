"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check %s --thorough' % i,
                       'technique': c.get('technique', 'contract-based deductive verification (own VC generator over clang ASTs, z3); failing obligations replayed natively'),
                       'level': c.get('level', 'proof'),
                       'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no contracts for the functions concerned yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang-18 --version', 'checks': checks, 'not_applicable': na,
           'notes': 'see DESIGN.md'}, open(V + '/MANIFEST.json', 'w'), indent=1)
