"""C17: ports and sensors sit where the user put them."""
import itertools

import numpy as np

from checks.c08 import merge
from mc import flowref as fr
from mc.core import Result
from mc.models import CHP, P, bc, links, pid
from mc.nets import run as run_net
from mc.thermal import paint, simulate
from mc.thermref import Balance, cell_of, geometry, MASSLESS

META = dict(
    title='Ports and sensors sit in the cell the user named',
    statement=(
        'A port added to a branched pipe or a storage at a cell index, a '
        'distance from the inlet or a volume from the inlet exchanges mass '
        'and heat with the cell containing that position, and with no other, '
        'whatever other ports share the part or the cell, in whatever order '
        'they are listed; the third port of a valve pipe sits at '
        'valve_location. A controller given a port name or a cell index as '
        'sensor reads the temperature of exactly that cell of that part. '
        'Positions outside of the part, unknown ports and double port names '
        'are refused.'),
    quantifier=dict(over=['configurations', 'inputs'], text=(
        'all positions and ways to state them, pairs and triples of ports, '
        'grids, flow directions; all sensor positions of all parts')),
    why_tests_cant='the tests use ports at a few fixed cell indices',
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/parts/pipe_branched.py',
               'multisim/parts/tes.py', 'multisim/parts/pipe_with_valve.py',
               'multisim/controllers.py'],
        mechanism=[
            dict(name='placing', where='simenv.py:_add_ports'),
            dict(name='addressing', where='simenv.py:_get_arr_idx'),
        ],
        state=[dict(name='cell temperatures', meaning='one row per step',
                    where='res'),
               dict(name='port massflows', meaning='one row per step',
                    where='res_dm')],
        observe_at=['res', 'res_dm', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of port and sensor positions on the '
              'real code; cell wise energy balance with independently placed '
              'ports, and the temperature a sensor reports',
    level_note=('grids of 3 to 7 cells, all indices, 3 positions per cell as '
                'distance and as volume, all pairs on 4 cells, triples in all '
                'orders; sensors at every port and cell of 12 parts.'),
)
PROPERTY = 'C17'
RULE = '(part, grid, positions, order, flows) / (part, sensor)'
ASSUMPTIONS = ['positions on the boundary of two cells may belong to either']
BOUNDS = 'up to 3 additional ports, 9 cells'
H = .02


def positions(kind, n, how, p):
    if how == 'index':
        return list(range(-1, n))
    g = geometry(kind, dict(p, grid_points=n))
    d = g['dx'] if how == 'distance' else g['vol']
    out = [0.0] + [round((i + f) * d, 12) for i in range(n)
                   for f in (.03, .5, .97)] + [n * d * (1 - 1e-12)]
    return out


def cases(tier):
    out = []
    big = tier == 'thorough'
    for kind, p in (('branch', {}), ('branch', dict(DN='DN65', length=4.)),
                    ('tes', {}), ('tes', dict(volume=2.7,
                                              outer_diameter=1.3))):
        for n in (3, 4, 5, 7) if not big else (3, 4, 5, 6, 7, 8, 9):
            for how in ('index', 'volume') + (('distance',) * (
                    kind == 'branch')):
                for v in positions(kind, n, how, p):
                    for f in (1, -1):
                        out.append(dict(mode='one', kind=kind, n=n, how=how,
                                        p=p, ports={'x': [v, how]},
                                        flow={'x': .1 * f}))
    for kind in ('branch', 'tes'):
        for i, j in itertools.product(range(4), repeat=2):
            for h1, h2 in (('index', 'index'), ('distance', 'index'),
                           ('index', 'volume')):
                h1 = 'volume' if (h1, kind) == ('distance', 'tes') else h1
                for fx, fy in ((1, 1), (1, -1), (-1, 1)):
                    out.append(dict(mode='two', kind=kind, n=4, p={},
                                    ports={'x': [at(kind, 4, i, h1), h1],
                                           'y': [at(kind, 4, j, h2), h2]},
                                    flow={'x': .1 * fx, 'y': .06 * fy}))
        for q in itertools.permutations((0, 2, 3)):
            for ends in ((0, 3), (1, 1)):
                out.append(dict(
                    mode='three', kind=kind, n=5, p={},
                    ports={'x': [q[0], 'index'], 'y': [q[1], 'index'],
                           'z': [q[2], 'index']},
                    flow={'x': .1, 'y': -.06, 'z': .02}))
    for n in (3, 4, 5, 7):
        for i in range(n):
            for f in (1, -1):
                out.append(dict(mode='valve', n=n, i=i, f=f))
    for kind in ('pipe', 'pump', 'valve', 'branch', 'tes', 'heated', 'chp',
                 'conn3', 'mixv', 'rawpump', 'hexnum'):
        n = {'conn3': 3, 'mixv': 3, 'rawpump': 2}.get(kind, 5)
        ps = fr.ports_of(kind, sensor_part(kind)[2])
        for x in ps:
            out.append(dict(mode='sensor', kind=kind, at=x))
        if kind not in MASSLESS:
            for i in range(15 if kind == 'hexnum' else n):
                out.append(dict(mode='sensor', kind=kind, at=i))
    for kind in ('branch', 'tes'):
        V = geometry(kind, {})['vol'] * 4
        L = geometry(kind, {})['dx'] * 4
        for bad in ([4, 'index'], [-2, 'index'], [1.5, 'index'],
                    [V * 1.01, 'volume'], [-.001, 'volume'],
                    [L * 1.01, 'distance'], [-.01, 'distance'],
                    [2, 'cell'], ['2', 'index'], 2, (2, 'index'),
                    [float('nan'), 'distance']):
            out.append(dict(mode='refuse', kind=kind, ports={'x': bad}))
        out.append(dict(mode='refuse', kind=kind,
                        ports={'in': [1, 'index']}))
        out.append(dict(mode='refuse', kind=kind,
                        ports={'out': [2, 'index']}))
    for kind in ('pipe', 'tes', 'conn3', 'hexnum'):
        for a in ('nowhere', 99, -99, 1.5):
            out.append(dict(mode='nosensor', kind=kind, at=a))
    return out


def at(kind, n, i, how):
    g = geometry(kind, dict(grid_points=n))
    return i if how == 'index' else (i + .4) * (
        g['dx'] if how == 'distance' else g['vol'])


def port_net(case):
    q = dict(case['p'], grid_points=case['n'], new_ports=case['ports'])
    parts = [P('f', .05), [case['kind'], 'q', q]]
    lk = [(bc('a'), ['f', 'in']), (['f', 'out'], ['q', 'in']),
          (['q', 'out'], bc('z'))]
    for x, f in case['flow'].items():
        parts.append(P('p' + x, abs(f)))
        a, b = ('out', 'in') if f > 0 else ('in', 'out')
        lk += [(['p' + x, a], ['q', x]), (['p' + x, b], bc(x))]
    lk = links(*lk)
    return dict(parts=parts, links=lk, bcs={
        e[1]: 20. for x in lk for e in x if e[0] == 'BC'})


def warm():
    for c in cases('quick')[::23]:
        try:
            run(c)
        except Exception:
            pass


def run(case):
    r = Result()
    r.outcome = case['mode']
    m = case['mode']
    if m in ('one', 'two', 'three'):
        balance(paint(port_net(case), 'down'), case, r)
    elif m == 'valve':
        lk = [(bc('a'), ['q', 'A']), (bc('b'), ['q', 'B']),
              (['q', 'AB'], ['p', 'in' if case['f'] > 0 else 'out']),
              (['p', 'out' if case['f'] > 0 else 'in'], bc('z'))]
        balance(paint(dict(
            parts=[['valve', 'q', dict(grid_points=case['n'], opening=.4,
                                       valve_location=case['i'])],
                   P('p', .1)], links=links(*lk),
            bcs={'BC_a': 0., 'BC_b': 0., 'BC_z': 0.}), 'up'), case, r)
    elif m == 'sensor':
        sensor(case, r)
    else:
        refuse(case, r)
    return r


def balance(net, case, r):
    s, res, t = simulate(net, 4 * H, max_stepsize=H)
    b = Balance(net, res, t)
    r.transitions += len(t) - 1
    for k, n, p in net['parts']:
        if n != 'q':
            continue
        store, gain, scale, dg, cond, pc = b.cells(n)
        tol = 2e-3 * scale + .12 * dg + .02 * cond + 1.0 * pc + 1e-3
        if k == 'tes':
            store, gain, tol = merge(res[n], store, gain,
                                     tol + 2e-3 * np.abs(store))
        bad = np.abs(store - gain) > tol
        r.see(k, np.round(store, 3))
        r.validated += store.size
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            where = {q: cell_of(k, p, q) for q in fr.ports_of(k, p)}
            r.fail('%s, %d cells, ports %s: cell %d stores %.6g W, gains '
                   '%.6g W (tolerance %.3g) with the ports at %s' % (
                       k, store.shape[1], case.get('ports', case.get('i')),
                       i[1], store[i], gain[i], tol[i], where), 'place')


def sensor_part(kind):
    p = {} if kind in MASSLESS else dict(grid_points=5)
    if kind == 'valve':
        p.update(opening=.4, valve_location=2)
    elif kind == 'branch':
        p['new_ports'] = {'x': [3, 'index'], 'y': [1, 'index']}
    elif kind == 'tes':
        p['new_ports'] = {'x': [3, 'index'], 'y': [1, 'index']}
    elif kind == 'heated':
        p['heat'] = 1000.
    elif kind == 'chp':
        p = dict(CHP, **p)
        p.update(ctrl_required=False, const_val=0.)
    elif kind == 'mixv':
        p['port_A_init'] = .4
    elif kind in ('pump', 'rawpump'):
        p['flow'] = .1
    return [kind, 'q', p]


def sensor_net(kind, where, **k):
    q = sensor_part(kind)
    ps = fr.ports_of(kind, q[2])
    parts = [q]
    lk = []
    fed = 0
    for i, x in enumerate(ps):
        last = x in ('out', 'AB', 'C')
        if kind in ('pump', 'rawpump', 'hexnum') and i % 2 or \
                kind in ('conn3', 'branch', 'tes', 'pipe', 'chp', 'heated'
                         ) and last or kind in ('valve', 'mixv') and not last:
            n = 'l%d' % i
            parts.append(['pipe', n, {}])
            lk += [(['q', x], [n, 'in']), ([n, 'out'], bc(n))]
        elif kind in ('pump', 'rawpump'):
            parts.append(['pipe', 'f', {}])
            lk += [(bc('a'), ['f', 'in']), (['f', 'out'], ['q', x])]
        elif last:
            parts.append(P('f', .1))
            lk += [(bc('a'), ['f', 'out']), (['f', 'in'], ['q', x])]
        else:
            n = 'f%d' % i
            parts.append(P(n, .04 + .03 * fed))
            fed += 1
            lk += [(bc(n), [n, 'in']), ([n, 'out'], ['q', x])]
    parts += [['pump', 'act', dict(start_massflow=0., lower_limit=0.,
                                   upper_limit=9., maximum_flow=9.)]]
    lk += [(bc('c'), ['act', 'in']), (['act', 'out'], bc('d'))]
    lk = links(*lk)
    net = dict(parts=parts, links=lk, bcs={
        e[1]: 20. for x in lk for e in x if e[0] == 'BC'})
    net = paint(net, 'up')
    net['ctrls'] = [pid('c', 'act', 'q', where, 0., Kp=.01, invert=True,
                        CV_saturation=[0., 9.])]
    return net


def sensor(case, r):
    net = sensor_net(case['kind'], case['at'])
    s, res, t = simulate(net, 1., max_stepsize=.1)
    k, n, p = net['parts'][0]
    x = case['at']
    c = x if isinstance(x, int) else cell_of(k, p, x)
    T = res['q'].reshape(len(t), -1)
    dm = np.array(s.parts['act'].res_dm).reshape(len(t), -1)[:, 0]
    r.transitions += len(t) - 1
    r.validated += 1
    r.see(k, np.round(T[-1], 6))
    if len(t) < 4:
        r.fail('only %d rows' % len(t), 'rows')
        return
    got, exp = dm[2:] / .01, T[1:-1, c]
    if np.abs(got - exp).max() > 1e-6:
        i = int(np.abs(got - exp).argmax())
        near = int(np.abs(T[i + 1] - got[i]).argmin())
        r.fail('sensor at %r of %s reads %.6g, cell %d has %.6g (cell %d: '
               '%.6g)' % (x, k, got[i], c, exp[i], near, T[i + 1, near]),
               'sensor')


def refuse(case, r):
    if case['mode'] == 'nosensor':
        net = sensor_net(case['kind'], case['at'])
    else:
        net = port_net(dict(kind=case['kind'], n=4, p={},
                            ports={'x': [1, 'index']}, flow={'x': .1}))
        net['parts'][1][2]['new_ports'] = case['ports']
    try:
        s = run_net(net, .1)
        s.time_vec
    except (AssertionError, TypeError, ValueError, KeyError, IndexError,
            NotImplementedError) as e:
        r.validated += 1
        r.see(case['kind'], type(e).__name__)
        return
    r.fail('%s accepts %s' % (case['kind'], case.get('ports', case.get(
        'at'))), 'refuse')
