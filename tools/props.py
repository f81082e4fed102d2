#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, M, R, G, K = 'src/blogc/', 'src/blogc-make/', 'src/blogc-runserver/', 'src/blogc-git-receiver/', 'src/common/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

SOUND = ('Static analysis of the LLVM IR (clang 18, -O0 -g, SSA form, static helpers inlined) of all translation units of '
         'both CMake configurations; nothing is executed. ')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
            if p['state']:
                d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif not os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
            na.append(dict(property=p['id'], reason='not built yet'))
        else:
            checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
                               thorough_cmd='./check %s thorough' % p['id'],
                               technique=p['technique'], level='other', level_note=SOUND + p['note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); from engine import frontend; '
                       'frontend.base_modules()"', checks=checks, not_applicable=na), f, indent=1)
    print(len(checks), 'claimed', len(na), 'not claimed')


main()
