#!/usr/bin/env python3
"""writes DESIGN.md from the rule texts of the checks, properties.jsonl, the seeded changes and the notes below"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()
NOTES = {}
cur = None
for l in open(os.path.join(V, 'tools', 'design_notes.md')):
    if l.startswith('# '):
        cur = l[2:].strip()
        NOTES[cur] = ''
    elif cur:
        NOTES[cur] += l


def text(n):
    """a string expression with its formatted parts"""
    if isinstance(n, ast.Constant):
        return str(n.value)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
        return text(n.left).replace('%d', 'N').replace('%s', 'N')
    if isinstance(n, ast.BinOp):
        return text(n.left) + text(n.right)
    return '...'


def rules(p):
    r, a = [], []
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('rule', 'assumption') and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == 'rep':
            (r if n.func.attr == 'rule' else a).append(text(n.args[0]))
    return r, a


out = [HEAD]
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
seeds = {}
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((os.path.basename(d), m))
out.append('## The properties\n')
for p in props:
    if p['id'] in na:
        continue
    c = next(x for x in man['checks'] if x['property'] == p['id'])
    r, a = rules(os.path.join(V, 'checks', p['id'] + '.py'))
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Technique*: %s.\n' % c['technique'])
    out.append('*Rule.* ' + ' '.join(' '.join(x.split()) for x in r) + '\n')
    if a:
        out.append('*Assumes*: ' + '; '.join(' '.join(x.split()) for x in a) + '.\n')
    if p['id'] in NOTES:
        out.append(NOTES[p['id']].strip() + '\n')
    for i, m in seeds.get(p['id'], ()):
        out.append('- planted `%s`: %s; needs: %s. Caught by this check.' % (i, m['what_it_breaks'], m['needs']))
    if seeds.get(p['id']):
        out.append('')
out.append('## Not applicable\n')
for p in props:
    if p['id'] in na:
        out.append('- **%s %s**: %s.' % (p['id'], p['title'], na[p['id']]))
out.append('')
out.append(TAIL)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
