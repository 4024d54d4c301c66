"""C03: results do not depend on how the model was written down."""
import itertools

import numpy as np

from mc.core import Result
from mc.models import P, bang, bc, library, links, net as mknet, pid, saw
from mc.nets import run as run_net

META = dict(
    title='Results do not depend on the order or the names in which a model '
          'is written down',
    statement=(
        'Adding the same parts in another order, giving them (or open ports '
        'and controllers) other names, connecting ports in another order or '
        'naming the two ends of a connection the other way round describes '
        'the same plant: the run has the same times and every part the same '
        'temperatures, mass flows and heat rates.'),
    quantifier=dict(over=['programs', 'configurations'], text=(
        'all orders of the build calls, all names, all directions of '
        'connect calls')),
    why_tests_cant=(
        'the topology search starts wherever the dictionaries say; each '
        'order takes other paths through the flow routines'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/flownet.py'],
        mechanism=[
            dict(name='postponed build', where='simenv.py:_call_postponed'),
            dict(name='topology', where='simenv.py:get_topology'),
            dict(name='solver loops', where='simenv.py:_heun_adaptive'),
        ],
        state=[dict(name='dicts of parts, ports and links', meaning='order '
                    'of the solution', where='SimEnv')],
        observe_at=['time_vec', 'res', 'res_dm', 'res_dQ'],
        hook_needed=None),
    technique='exhaustive enumeration of build orders and names on the real '
              'code, results compared with the reference order',
    level_note=('All permutations of the parts (up to 120), every rotation '
                'and reversal of the connect calls, every single and all '
                'swapped connection directions, several naming schemes; 12 '
                'models.'),
)
PROPERTY = 'C03'
RULE = '(model, part order, link order, swapped links, naming scheme)'
ASSUMPTIONS = ['rounding may differ with the order of summation: relative '
               'tolerance 1e-7']
BOUNDS = 'models of up to 6 parts'


def models():
    m = library()
    # two massless junctions in a row and a storage fed from both sides
    m['junct'] = (mknet(
        [P('p', .1), ['conn3', 'c', {}], ['conn3', 'd', {}], P('r', .03),
         P('s', .02), ['pipe', 'q', {'T_init': [50., 40., 30.]}]],
        links((bc('a'), ['p', 'in']), (['p', 'out'], ['c', 'A']),
              (['c', 'B'], ['d', 'A']), (['c', 'C'], ['r', 'in']),
              (['r', 'out'], bc('x')), (['d', 'B'], ['s', 'in']),
              (['s', 'out'], bc('y')), (['d', 'C'], ['q', 'in']),
              (['q', 'out'], bc('z'))),
        {'BC_a': saw(30., 60., 1, 20), 'BC_x': 20., 'BC_y': 20.,
         'BC_z': 20.}), 3., {})
    m['ctrl'] = (mknet(
        [['pump', 'p', dict(start_massflow=.1, lower_limit=.02,
                            upper_limit=.3, maximum_flow=1.)],
         ['heated', 'h', {}], ['pipe', 'q', {}],
         ['tes', 't', {'new_ports': {'x': [1, 'index'], 'y': [2, 'index']}}],
         P('r', .05)],
        links((bc('a'), ['p', 'in']), (['p', 'out'], ['h', 'in']),
              (['h', 'out'], ['t', 'in']), (['t', 'out'], ['q', 'in']),
              (['q', 'out'], bc('z')), (['t', 'x'], ['r', 'in']),
              (['r', 'out'], ['t', 'y'])),
        {'BC_a': saw(30., 60., 1, 20), 'BC_z': 20.},
        [bang('b', 'h', 'h', 'out', 45., CV_saturation=[0., 6000.]),
         pid('k', 'p', 'q', 'out', 45., terms='PI', Kp=.01, Ki=.004,
             anti_windup='auto')]), 4., {})
    return m


MODELS = models()
BASE = {}


def rename(scheme, i, n):
    return {0: n, 1: 'z%d_%s' % (9 - i, n), 2: '%s part %d' % (n * 2, i),
            3: 'P' + 'abcdefgh'[::-1][i]}[scheme]


def cases(tier):
    out = []
    for m, (n, _, _) in MODELS.items():
        k, L = len(n['parts']), len(n['links'])
        perms = list(itertools.permutations(range(k)))
        if tier == 'quick' and len(perms) > 120:
            # all rotations of all adjacent transpositions and the reversal
            base = list(range(k))
            sel = [base, base[::-1]]
            for i in range(k - 1):
                b = base[:]
                b[i], b[i + 1] = b[i + 1], b[i]
                sel.append(b)
            perms = [tuple(b[j:] + b[:j]) for b in sel for j in range(k)]
        rots = [list(range(L))[i:] + list(range(L))[:i] for i in range(L)]
        rots += [x[::-1] for x in rots]
        for p in perms:
            for nm in (0, 1):
                out.append(dict(m=m, p=p, l=None, s=[], n=nm))
        for nm in (2, 3):
            out.append(dict(m=m, p=perms[0], l=None, s=[], n=nm))
        for lo in rots:
            out.append(dict(m=m, p=perms[0], l=lo, s=[], n=0))
            out.append(dict(m=m, p=perms[-1], l=lo, s=[], n=0))
        for s in [[i] for i in range(L)] + [list(range(L))]:
            for p in (perms[0], perms[-1]):
                out.append(dict(m=m, p=p, l=None, s=s, n=0))
        if tier == 'thorough':
            for s in itertools.product((0, 1), repeat=min(L, 7)):
                out.append(dict(m=m, p=perms[len(perms) // 2], l=rots[-1],
                                s=[i for i, x in enumerate(s) if x], n=3))
    return out


def variant(case):
    n, tf, kw = MODELS[case['m']]
    names = {p[1]: rename(case['n'], i, p[1])
             for i, p in enumerate(n['parts'])}
    names['BC'] = 'BC'
    ports = {b: b if case['n'] == 0 else 'BC_%s%d' % ('yx'[i % 2], i)
             for i, b in enumerate(n['bcs'])}

    def end(e):
        return [names[e[0]], ports[e[1]] if e[0] == 'BC' else e[1]]
    parts = [[k, names[a], q] for k, a, q in
             (n['parts'][i] for i in case['p'])]
    lk = [[end(a), end(b)] for a, b in n['links']]
    for i in case['s']:
        lk[i] = lk[i][::-1]
    if case['l']:
        lk = [lk[i] for i in case['l']]
    ctrls = []
    for k, a, q in n['ctrls']:
        q = dict(q)
        for f in ('actuator', 'controlled_part'):
            q[f] = names[q[f]]
        ctrls.append([k, a if case['n'] == 0 else 'zz' + a, q])
    bcs = {ports[b]: v for b, v in n['bcs'].items()}
    if case['n']:
        bcs = dict(reversed(list(bcs.items())))
    return dict(parts=parts, links=lk, bcs=bcs, ctrls=ctrls), tf, kw, names


def snap(s, names):
    o = {'time': np.array(s.time_vec)}
    for n, x in names.items():
        if n == 'BC':
            continue
        for k in ('res', 'res_dm', 'res_dQ', 'res_Pel'):
            if hasattr(s.parts[x], k):
                o[n + '.' + k] = np.array(getattr(s.parts[x], k))
    return o


def execute(case):
    net, tf, kw, names = variant(case)
    return snap(run_net(net, tf, **kw), names)


def warm():
    for m, (n, _, _) in MODELS.items():
        BASE[m] = execute(dict(m=m, p=range(len(n['parts'])), l=None, s=[],
                               n=0))


def run(case):
    r = Result()
    if not BASE:
        warm()
    want = BASE[case['m']]
    got = execute(case)
    r.transitions += len(got['time']) - 1
    r.validated += 1
    r.see(case['m'], got['time'], len(case['p']))
    for k in want:
        if got[k].shape != want[k].shape:
            r.fail('%s has shape %s instead of %s' % (
                k, got[k].shape, want[k].shape), 'shape')
            break
        if not np.allclose(got[k], want[k], rtol=1e-7, atol=1e-7):
            d = np.abs(got[k] - want[k])
            r.fail('%s differs by up to %g (first in row %d)' % (
                k, d.max(), np.argwhere(d > 1e-7)[0][0]), 'values')
            break
    r.outcome = case['m']
    return r
