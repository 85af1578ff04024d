"""Writes DESIGN.md: tools/design_head.md, one section per property (from the monitors), tools/design_tail.md, the list of repaired defects. Run by hand."""
import ast, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, '..')
sys.path[:0] = [here, os.path.join(root, 'lib'), os.path.join(root, 'monitors')]
import props


def consts(f):
    t = ast.parse(open(f).read()); r = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'ASSUMPTIONS'):
            try: r[n.targets[0].id] = eval(compile(ast.Expression(n.value), f, 'eval'), {})
            except Exception: pass
    doc = ast.get_docstring(t)
    funcs = [(n.name, ast.get_docstring(n)) for n in t.body if isinstance(n, ast.FunctionDef) and ast.get_docstring(n) and (n.decorator_list or n.args.args and n.args.args[0].arg == 'ctx' and len(n.args.args) == 1)]
    return r, doc, funcs


out = [open(os.path.join(here, 'design_head.md')).read().rstrip(), '', '## Properties, one by one', '']
for p in props.PROPS:
    f = os.path.join(root, 'monitors', p['id'] + '.py')
    out += ['### %s %s' % (p['id'], p['title']), '']
    if not os.path.exists(f):
        out += ['Not claimed: see not_applicable in MANIFEST.json.', '']; continue
    r, doc, funcs = consts(f)
    out += ['*Decided by*: %s. %s' % (p['technique'], (doc or '').strip()), '']
    if 'RULE' in r: out += ['*Workload and oracle*: ' + str(r['RULE']).strip() + '.', '']
    if funcs: out += ['*Monitors*:', ''] + ['- `%s`: %s' % (n, ' '.join(d.split())) for n, d in funcs] + ['']
    if 'ASSUMPTIONS' in r: out += ['*Assumptions and bounds*: ' + '; '.join(r['ASSUMPTIONS']) + '.', '']
    out += ['*Why tests cannot settle it*: ' + p['why'], '']
    e = os.path.join(root, 'evidence', p['id'] + '.json')
out += [open(os.path.join(here, 'design_tail.md')).read().rstrip(), '', '## Genuine defects found and repaired', '',
        'Each is one `fix:` commit in /repo, listed in known_findings.json (a fixed entry suppresses nothing).', '']
for k in json.load(open(os.path.join(root, 'known_findings.json'))):
    out.append('- ' + k.get('what', str(k)))
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
