#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the checks' META blocks.

META is read from the source text (no import of the code under test).
"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(node):
    """Evaluate META = dict(...) made of literals and dict() calls."""
    if isinstance(node, ast.Call) and node.func.id == 'dict':
        return {k.arg: const(k.value) for k in node.keywords}
    if isinstance(node, (ast.List, ast.Tuple)):
        return [const(x) for x in node.elts]
    return ast.literal_eval(node)


props, checks, notes = [], [], []
for fn in sorted(glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py'))):
    tree = ast.parse(open(fn).read())
    meta = pid = None
    info = {}
    for st in tree.body:
        if isinstance(st, ast.Assign) and st.targets[0].id == 'META':
            meta = const(st.value)
        if isinstance(st, ast.Assign) and st.targets[0].id == 'PROPERTY':
            pid = st.value.value
        if isinstance(st, ast.Assign) and st.targets[0].id in (
                'RULE', 'BOUNDS', 'ASSUMPTIONS'):
            try:
                info[st.targets[0].id] = const(st.value)
            except (ValueError, AttributeError):
                info[st.targets[0].id] = ['those of C25']
    props.append(dict(id=pid, **{k: meta[k] for k in (
        'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}))
    checks.append(dict(
        property=pid, quick_cmd='./run %s quick' % pid,
        thorough_cmd='./run %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=meta['technique'], level='model_checking',
        level_note=meta['level_note']))
    notes.append((pid, meta, info))
na = os.path.join(HERE, 'not_applicable.json')
na = json.load(open(na)) if os.path.exists(na) else []
for n in na:
    props.append(n['entry'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='true', checks=checks,
           not_applicable=[dict(property=n['entry']['id'], reason=n['reason'])
                           for n in na],
           notes='See DESIGN.md. Every check runs the real code from '
           '/repo with a private throw-away numba cache.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


def seeded():
    """Table of the planted bugs."""
    out = ['| bug | property | breaks | needs | caught by |',
           '|---|---|---|---|---|']
    res = os.path.join(HERE, 'tools', 'design', 'caught.txt')
    by = dict(x.split(None, 1) for x in open(res)) \
        if os.path.exists(res) else {}
    for fn in sorted(glob.glob(os.path.join(HERE, 'seeded', '*',
                                            'meta.json'))):
        m = json.load(open(fn))
        n = os.path.basename(os.path.dirname(fn))
        out.append('| %s | %s | %s | %s | %s |' % (
            n, m['property'], m['what_it_breaks'].replace('|', '/'),
            m['needs'].replace('|', '/'), by.get(n, '?').strip()))
    return '\n'.join(out)


with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(open(os.path.join(HERE, 'tools/design/head.md')).read())
    for pid, m, i in notes:
        f.write('\n### %s %s\n\n%s\n\n' % (pid, m['title'], m['statement']))
        f.write('* how decided: %s\n' % m['technique'])
        f.write('* enumerated, and compared: %s\n' % i.get('RULE', ''))
        f.write('* bounds: %s. %s\n' % (i.get('BOUNDS', ''),
                                        m['level_note']))
        f.write('* assumptions: %s\n' % (
            '; '.join(i.get('ASSUMPTIONS') or []) or 'none'))
        f.write('* beyond tests: %s\n' % m['why_tests_cant'])
    f.write(open(os.path.join(HERE, 'tools/design/tail.md')).read().replace(
        '@@SEEDED@@', seeded()))
