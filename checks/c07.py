"""C07: temperatures stay within those present; equilibrium is kept."""
import numpy as np

from checks import c01
from mc.core import Result
from mc.models import P, bc, chain, links, net as mknet
from mc.thermal import determined, paint, simulate, temps

META = dict(
    title='Without a heat source no temperature leaves the range present',
    statement=(
        'In a network without heat sources every recorded temperature stays '
        'between the lowest and the highest of the initial, open port and '
        'ambient temperatures, for every wiring, flow, opening and number '
        'of steps the solver chooses, and is a number. If all of them are '
        'equal nothing ever changes. (Junctions without mass mix with a '
        'specific heat that is accurate to 0.5 %; the range is widened by '
        'that where they occur.)'),
    quantifier=dict(over=['programs', 'configurations', 'inputs'], text=(
        'all networks, flows, temperature distributions, every cell and '
        'step')),
    why_tests_cant=(
        'an overshoot needs a particular wiring, flow and step size; the '
        'tests run one pipe'),
    anchors=dict(
        files=['multisim/precomp_funs.py', 'multisim/simenv.py'],
        mechanism=[
            dict(name='stability limits of the step', where='precomp_funs.py:'
                 '_vonNeumann_stability_*'),
            dict(name='step control', where='simenv.py:_heun_adaptive'),
            dict(name='cell differentials', where='precomp_funs.py:*_diff'),
        ],
        state=[dict(name='cell temperatures', meaning='one row per step',
                    where='res of each part')],
        observe_at=['res'],
        hook_needed=None),
    technique='exhaustive enumeration of wirings, flows and temperature '
              'patterns on the real code, range invariant at every state',
    level_note=('All determined wirings of C01 with alternating and monotone '
                'temperature patterns, run with free step sizes; strong '
                'flows, small and large cells.'),
)
PROPERTY = 'C07'
RULE = '(wiring of C01, temperature pattern); every recorded value in range'
ASSUMPTIONS = ['overshoot up to 1e-3 K is rounding of the step control']
BOUNDS = 'networks of up to 4 parts, runs of up to 40 s'


def cases(tier):
    out = []
    for i, c in enumerate(c01.cases(tier)):
        if c['mode'] != 'const' or not determined(c['net']):
            continue
        small = len(c['net']['parts']) <= 2
        pats = ('zig', 'up', 'down') if small or tier == 'thorough' else \
            (('zig', 'up', 'down')[i % 3],)
        for pat in pats:
            out.append(dict(net=c['net'], pat=pat, tf=6.))
        if small or i % 4 == 0 or tier == 'thorough':
            out.append(dict(net=c['net'], pat='flat', T=60.))
    # strong and weak flows through small and large cells
    for f in (0., 1e-3, .02, .3, 1.5):
        for dn in ('DN10', 'DN25', 'DN100'):
            for n in (3, 12):
                for pat in ('zig', 'up', 'down'):
                    q = dict(DN=dn, grid_points=n, length=1.0)
                    out.append(dict(net=mknet(
                        [P('p', f, DN=dn), ['pipe', 'q', q]],
                        chain('p', 'q'), {'BC_a': 0, 'BC_z': 0}),
                        pat=pat, tf=40. if f < .1 else 8.))
                    out.append(dict(net=mknet(
                        [P('p', f, DN=dn), P('r', f / 3, DN=dn),
                         ['tes', 't', {'grid_points': n, 'new_ports': {
                             'x': [1, 'index'], 'y': [n - 2, 'index']}}]],
                        links((bc('a'), ['p', 'in']),
                              (['p', 'out'], ['t', 'in']),
                              (['t', 'out'], bc('b')),
                              (['t', 'x'], ['r', 'in']),
                              (['r', 'out'], ['t', 'y'])),
                        {'BC_a': 0, 'BC_b': 0}), pat=pat, tf=15.))
    # massless junctions in a row, before and behind the pump
    for io in (('in', 'out'), ('out', 'in')):
        for n in (chain3(*io), chain3(*io, raw=True)):
            for pat in ('zig', 'up', 'down'):
                out.append(dict(net=n, pat=pat, tf=6.))
            for T in (1., 60.):
                out.append(dict(net=n, pat='flat', T=T))
    for T in (1., 20., 60., 95.):
        for k in ('pipe', 'branch', 'tes', 'valve', 'heated'):
            n = one(k)
            out.append(dict(net=n, pat='flat', T=T))
    return out


def chain3(i, o, raw=False):
    lk = links((bc('a'), ['p', i]), (['p', o], ['c', 'A']),
               (['c', 'B'], ['d', 'A']), (['c', 'C'], ['r', i]),
               (['r', o], bc('x')), (['d', 'B'], ['s', i]),
               (['s', o], bc('y')), (['d', 'C'], ['q', 'in']),
               (['q', 'out'], bc('z')))
    pump = ['rawpump', 'p', {'flow': .1}] if raw else P('p', .1)
    return dict(parts=[pump, ['conn3', 'c', {}], ['conn3', 'd', {}],
                       P('r', .03), P('s', .02), ['pipe', 'q', {}]],
                links=lk, bcs={e[1]: 0 for x in lk for e in x
                               if e[0] == 'BC'})


def one(k):
    from mc import flowref as fr
    prm = {'opening': .4} if k == 'valve' else \
        {'heat': 0.} if k == 'heated' else {}
    ports = fr.ports_of(k, prm)
    parts = [P('p', .1), [k, 'q', prm]]
    lk = [[bc('a'), ['p', 'in']], [['p', 'out'], ['q', ports[0]]]]
    lk += [[['q', x], bc(x)] for x in ports[1:]]
    if k == 'branch':
        parts.append(P('r', .03))
        lk[-1:] = [[['q', 'p1'], ['r', 'in']], [['r', 'out'], bc('p1')]]
    return dict(parts=parts, links=lk,
                bcs={e[1]: 0 for x in lk for e in x if e[0] == 'BC'})


def warm():
    from checks import c08
    c08.warm()


def run(case):
    r = Result()
    flat = case['pat'] == 'flat'
    T = case.get('T')
    net = paint(case['net'], case['pat'], ins=.035,
                tamb=T if flat else 20., uniform=T)
    s, res, t = simulate(net, case.get('tf', 3.))
    r.transitions += len(t) - 1
    lo, hi = min(temps(net) + [T or 20.]), max(temps(net) + [T or 20.])
    kinds = {k for k, _, _ in net['parts']}
    tol = 1e-3 if not flat else 1e-4 if 'hex' in kinds else 1e-7
    if kinds & {'conn3', 'mixv'}:
        tol += 0. if flat else .001 * hi
    for k, n, p in net['parts']:
        x = res[n][0 if k not in ('conn3', 'mixv', 'rawpump', 'hex') else 1:]
        r.see(k, np.round(x, 6))
        if not np.isfinite(x).all():
            r.fail('%s %r has a temperature that is not a number' % (k, n),
                   'nan')
            return r
        d = max(lo - x.min(), x.max() - hi)
        if d > tol:
            i = np.argwhere((x < lo - tol) | (x > hi + tol))[0]
            r.fail('%s %r reaches %.6g .. %.6g, outside of %g .. %g (first '
                   'in row %d)' % (k, n, x.min(), x.max(), lo, hi, i[0]),
                   'range')
            return r
    r.outcome = 'flat' if flat else 'ok'
    return r
