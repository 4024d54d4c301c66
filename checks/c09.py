"""C09: turning a part round changes nothing but its numbering."""
import copy
import itertools

import numpy as np

from checks import c01
from mc.core import Result
from mc.models import P, bc, bang, links, pid, saw
from mc.thermal import determined, paint, simulate

META = dict(
    title='A pipe turned round gives the mirrored result for either flow',
    statement=(
        'A pipe, heated pipe or branched pipe has no preferred direction: '
        'connecting it the other way round (ends exchanged, side ports, '
        'sensor positions and initial temperatures mirrored) gives the same '
        'run with its temperatures in reversed order and its mass flow with '
        'the other sign, while everything else in the plant stays the same. '
        'Hence flow in the positive and in the negative direction is '
        'treated alike.'),
    quantifier=dict(over=['programs', 'configurations', 'inputs'], text=(
        'all networks, all subsets of parts turned round, all flows and '
        'temperature distributions')),
    why_tests_cant='tests only use flow in the positive direction',
    anchors=dict(
        files=['multisim/precomp_funs.py', 'multisim/simenv.py',
               'multisim/parts/pipe.py', 'multisim/parts/pipe_branched.py'],
        mechanism=[
            dict(name='flow splitting by sign', where='precomp_funs.py:'
                 '_process_flow_invar/_var'),
            dict(name='flow routines', where='parts/*:_get_flow_routine'),
            dict(name='stability limits', where='precomp_funs.py:'
                 '_vonNeumann_stability_*'),
        ],
        state=[dict(name='cell temperatures', meaning='one row per step',
                    where='res of each part')],
        observe_at=['res', 'res_dm', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of wirings and mirrored subsets on the '
              'real code, pairwise comparison of the runs',
    level_note=('All wirings of C01 that contain mirrorable parts, every '
                'non-empty subset of them turned round; controlled plants '
                'with sensors on mirrored parts.'),
)
PROPERTY = 'C09'
RULE = '(wiring, temperature pattern, subset of mirrored parts)'
ASSUMPTIONS = ['heat loss is switched off (the inner heat transfer '
               'coefficient counts the distance from the "in" end); rounding '
               'may differ: relative tolerance 1e-7']
BOUNDS = 'networks of up to 4 parts'
MIRROR = ('pipe', 'branch', 'heated')


def cases(tier):
    out = []
    for i, c in enumerate(c01.cases(tier)):
        net = c['net']
        m = [n for k, n, p in net['parts'] if k in MIRROR]
        if c['mode'] != 'const' or not m or not determined(net):
            continue
        pats = ('zig', 'up') if tier == 'thorough' or len(net['parts']) < 3 \
            else ('zig',)
        for pat in pats:
            for k in range(1, len(m) + 1):
                for sub in itertools.combinations(m, k):
                    out.append(dict(net=net, pat=pat, sub=list(sub)))
    for f in (.02, .1, .6):
        for g in (3, 8):
            for sp in ('all', 0, 1, [1, 2], [1, g - 1]):
                net = dict(
                    parts=[P('p', f), ['heated', 'h', dict(
                        grid_points=g, **spread(sp))],
                        ['branch', 'b', dict(
                            grid_points=g, new_ports={'p1': [1, 'index']})],
                        P('r', f / 4), ['pipe', 'q', dict(grid_points=g)]],
                    links=links((bc('a'), ['p', 'in']),
                                (['p', 'out'], ['h', 'in']),
                                (['h', 'out'], ['b', 'in']),
                                (['b', 'p1'], ['r', 'in']),
                                (['r', 'out'], bc('y')),
                                (['b', 'out'], ['q', 'in']),
                                (['q', 'out'], bc('z'))),
                    bcs={'BC_a': 0, 'BC_y': 0, 'BC_z': 0})
                if sp == 'all':
                    net['ctrls'] = [
                        bang('bb', 'h', 'h', g - 1, 45.,
                             CV_saturation=[0., 6000.]),
                        ]
                else:
                    net['ctrls'] = [pid('bb', 'h', 'q', 1, 55., Kp=400.,
                                        CV_saturation=[0., 9000.])]
                for k in (1, 2, 3):
                    for sub in itertools.combinations('hbq', k):
                        out.append(dict(net=net, pat='zig', sub=list(sub),
                                        tf=5.))
    return out


def spread(x):
    return {'heat_spread': 'all'} if x == 'all' else \
        {'heat_spread': 'single', 'heated_cells': x} if isinstance(x, int) \
        else {'heat_spread': 'range', 'heated_cells': x}


def mirror(net, sub):
    net = copy.deepcopy(net)
    size = {}
    swap = {'in': 'out', 'out': 'in'}
    for k, n, p in net['parts']:
        if n not in sub:
            continue
        m = len(p['T_init'])
        size[n] = m
        p['T_init'] = p['T_init'][::-1]
        if k == 'branch':
            ports = p.get('new_ports', {'p1': [2, 'index']})
            p['new_ports'] = {q: [m - 1 - v[0], 'index']
                              for q, v in ports.items()}
        c = p.get('heated_cells')
        if c is not None:
            p['heated_cells'] = m - 1 - c if isinstance(c, int) else \
                [m - c[1], m - c[0]]
    net['links'] = [[[a, swap.get(b, b) if a in sub else b] for a, b in l]
                    for l in net['links']]
    for k, n, q in net.get('ctrls', []):
        x = q['controlled_part']
        if x in sub:
            q['controlled_port'] = size[x] - 1 - q['controlled_port']
    return net


def warm():
    from checks import c08
    c08.warm()


def run(case):
    r = Result()
    net = paint(case['net'], case['pat'])
    tf = case.get('tf', 1.)
    try:
        s, res, t = simulate(copy.deepcopy(net), tf)
    except Exception as e:
        r.outcome = 'refused'
        r.nontrivial = False
        r.see('refused', type(e).__name__)
        return r
    s2, res2, t2 = simulate(mirror(net, case['sub']), tf)
    r.transitions += len(t) + len(t2) - 2
    r.validated += 1
    if t.shape != t2.shape or not np.allclose(t, t2, rtol=1e-7, atol=1e-9):
        r.fail('turning %s round changes the time steps (%d rows, then %d)'
               % (case['sub'], len(t), len(t2)), 'time')
        return r
    for k, n, p in net['parts']:
        b = res2[n]
        d, d2 = np.array(s.parts[n].res_dm), np.array(s2.parts[n].res_dm)
        if n in case['sub']:
            b = b[:, ::-1]
            if k != 'branch':
                d2 = -d2
            else:
                d2 = -np.concatenate([d2[:, -2::-1], d2[:, -1:]], axis=1)
                d2[:, -1] = d2[:, -2]
        r.see(k, np.round(b, 6))
        e = np.abs(res[n] - b).max()
        if e > 1e-6:
            r.fail('turning %s round changes temperatures of %s %r by %g' % (
                case['sub'], k, n, e), 'temperature')
            return r
        e = np.abs(d - d2).max()
        if e > 1e-9:
            r.fail('turning %s round changes mass flows of %s %r by %g' % (
                case['sub'], k, n, e), 'flow')
            return r
    r.outcome = '+'.join(sorted(k for k, n, p in net['parts']
                                if n in case['sub']))
    return r
