"""writes DESIGN.md: the hand-written part (tools/design_head.md, tools/design_tail.md), and per property the note
below with the functions, bounds and exclusions that the check module itself declares (and reports as evidence)"""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {}
exec(open(os.path.join(ROOT, 'tools', 'design_notes.py')).read())


def consts(i):
    r = {}
    for n in ast.parse(open(os.path.join(ROOT, 'checks', i.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('FUNCS', 'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            r[n.targets[0].id] = ast.literal_eval(n.value)
    return r


out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    c = consts(i)
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '',
            '- *How it is decided.* ' + HOW[i],
            '- *Executed symbolically.* ' + ', '.join(c['FUNCS']) + '.',
            '- *Bounds.* ' + c['BOUNDS'] + '.',
            '- *Outside.* ' + c['OUTSIDE'] + '.']
    if c.get('ASSUMPTIONS'):
        out.append('- *Assumed.* ' + '; '.join(c['ASSUMPTIONS']) + '.')
    out += ['- *What tests cannot settle.* ' + p['why_tests_cant'], '']
seeds = ['| id | check | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read().rstrip().replace('@SEEDS@', 'Each is caught by the check of its property (exit 1, replayed counterexample):\n\n' + '\n'.join(seeds)))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
