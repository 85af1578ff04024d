"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in props.py, so that the two stay in step."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=p['mech']))
        for k in ('state', 'observe_at', 'hook_needed'):
            if k in p:
                d['anchors'][k] = p[k]
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
    elif os.path.exists('%s/monitors/%s.py' % (V, p['id'])):
        checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                           technique=p['technique'], level='exploration', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='not built yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
