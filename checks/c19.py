"""C19: pipe catalogue, self defined cross sections, interpolated sizes."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from checks import c26
from mc import flowref as fr
from mc.core import Result
from mc.models import CHP, P, bc, links
from mc.nets import ms, run as run_net
from mc.thermal import paint, simulate
from mc.thermref import MATS, PIPES, Balance

META = dict(
    title='Catalogue sizes and materials give each part its real geometry',
    statement=(
        'A part with a catalogue pipe (type, DN) and a wall material has the '
        'cross sections, diameters and wall capacity the catalogue and the '
        'material table state: its cells warm up, conduct and lose heat '
        'accordingly, for every size, material and kind of pipe. Giving the '
        'same areas by hand, or the same specification to each port '
        'separately where parts allow it, gives the same simulation. '
        'Interpolated sizes reproduce the catalogue at its own sizes, lie '
        'between the neighbours elsewhere, belong to the requested pipe type '
        'and have consistent areas and diameters. The catalogue follows '
        'EN 10255; unknown types, sizes and materials are refused. '
        'The tables can be loaded by name (database_import), all or some '
        'of them, the bundled ones or those of a directory.'),
    quantifier=dict(over=['configurations', 'inputs'], text=(
        'all catalogue entries, materials, parts and flow directions; all '
        'scaling factors within the catalogue')),
    why_tests_cant='the tests use two of the 26 sizes and one material',
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/utility_functions.py',
               'multisim/parts/pipe.py'],
        mechanism=[
            dict(name='lookup', where='simenv.py:_get_specs_n_props'),
            dict(name='scaling', where='utility_functions.py:'
                 'interp_pipe_specs, adjust_pipes'),
        ],
        state=[dict(name='cell temperatures', meaning='one row per step',
                    where='res')],
        observe_at=['res', 'time_vec', 'pipe specification tables'],
        hook_needed=None),
    technique='exhaustive enumeration of the catalogue x materials x parts x '
              'flow directions on the real code; energy balance from the '
              'catalogue as oracle, equal configurations as twins',
    level_note=('25 pipes x 2 materials x 6 parts x 2 flow directions, loss '
                'comparison of all sizes, twins by hand and by port, 25 pipes '
                'x 7 factors interpolated.'),
)
PROPERTY = 'C19'
RULE = '(part, pipe type, DN, material, direction) / (pipe, factor)'
ASSUMPTIONS = ['the wall follows the fluid temperature (model of MultiSim)']
BOUNDS = 'chains of two parts, 5 small steps'
TYPES = ('EN10255_medium', 'EN10255_heavy')
DO = dict(DN8=13.5, DN10=17.2, DN15=21.3, DN20=26.9, DN25=33.7, DN32=42.4,
          DN40=48.3, DN50=60.3, DN65=76.1, DN80=88.9, DN100=114.3,
          DN125=139.7, DN150=165.1)
WALL = {'EN10255_medium': (2.3, 2.3, 2.6, 2.6, 3.2, 3.2, 3.2, 3.6, 3.6, 4.0,
                           4.5, 5.0, 5.0),
        'EN10255_heavy': (2.9, 2.9, 3.2, 3.2, 4.0, 4.0, 4.0, 4.5, 4.5, 5.0,
                          5.4, 5.4, 5.4)}
FACTORS = (.75, .9, 1.0, 1.05, 1.2, 1.5, 2.0)
H = .02
ALL = [(t, d) for t in TYPES for d in DO
       if (t, d) != ('EN10255_heavy', 'DN8')]  # a gap of the table


def cases(tier):
    out = []
    for n in range(5):
        for w in itertools.combinations(TABLES, n):
            for pth in (0, 1):
                out.append(dict(mode='base', which=w, path=pth))
    for t, d in ALL:
        out.append(dict(mode='table', t=t, d=d))
        for m in MATS:
            for k in ('pipe', 'pump', 'valve', 'branch', 'heated', 'chp'):
                for s in (1, -1):
                    for v in (.1, .4) if tier == 'thorough' else (.1,):
                        out.append(dict(mode='cells', t=t, d=d, m=m, kind=k,
                                        s=s, v=v))
        for k in ('pipe', 'pump', 'heated', 'valve', 'branch', 'chp'):
            for full in (0, 1):
                out.append(dict(mode='hand', t=t, d=d, kind=k, full=full))
        for T, ins in ((60., .03), (5., .02)):
            out.append(dict(mode='loss', t=t, d=d, T=T, ins=ins))
        for f in FACTORS:
            out.append(dict(mode='scale', t=t, d=d, f=f))
    for k in ('conn3', 'mixv', 'rawpump', 'tes'):
        for t, d in ALL[::1 if tier == 'thorough' else 4]:
            for h in ('DN', 'areas'):
                out.append(dict(mode='ports', kind=k, t=t, d=d, how=h))
    for t in TYPES:
        for d in DO:
            out.append(dict(mode='mixed', t=t, d=d))
    for k in ('pipe', 'tes', 'conn3', 'chp'):
        for bad in (dict(pipe_specs={'all': dict(pipe_type='EN10255',
                                                 DN='DN25')}),
                    dict(pipe_specs={'all': dict(pipe_type=TYPES[0],
                                                 DN='DN26')}),
                    dict(pipe_specs={'all': dict(pipe_type=TYPES[0],
                                                 DN=25)}),
                    dict(pipe_specs={'all': dict(pipe_type=TYPES[0])}),
                    dict(pipe_specs={'all': dict(pipe_type=TYPES[0],
                                                 A_i=1e-3)}),
                    dict(pipe_specs={'in': dict(pipe_type=TYPES[0],
                                                DN='DN25')}),
                    dict(material='wood')):
            out.append(dict(mode='refuse', kind=k, bad=bad))
    return out


def network(kind, p, flow, turn=1):
    """Pump of the same pipe -> part -> open; other ports open or pumped."""
    same = {x: p[x] for x in ('DN', 'ptype', 'material', 'pipe_specs')
            if x in p}
    if kind == 'pump':
        parts = [['pump', 'q', dict(p, flow=flow)], ['pipe', 'r', same]]
        lk = [(bc('a'), ['q', 'in']), (['q', 'out'], ['r', 'in']),
              (['r', 'out'], bc('z'))]
    else:
        p = dict(p)
        if kind == 'valve':
            p['opening'] = .4
        elif kind == 'heated':
            p['heat'] = 500.
        elif kind == 'chp':
            p = dict(CHP, **p)
            p.update(ctrl_required=False, const_val=0.)
        elif kind == 'branch':
            p['new_ports'] = {'p1': [1, 'index']}
        elif kind == 'mixv':
            p['port_A_init'] = .4
        q = fr.ports_of(kind, p)
        parts = [P('p', flow, **({} if kind in ('tes', 'conn3', 'mixv',
                                                'rawpump') else same)),
                 [kind, 'q', p]]
        if kind == 'rawpump':
            p['flow'] = flow
            parts[0] = ['pipe', 'p', {}]
        lk = [(bc('a'), ['p', 'in']), (['p', 'out'], ['q', q[0]])]
        if kind == 'mixv':             # on the suction side only
            q = ['AB', 'A', 'B']
            lk = [(bc('a'), ['p', 'out']), (['p', 'in'], ['q', 'AB'])]
        rest = list(q[1:])
        if kind in ('branch', 'conn3'):
            x = rest.pop(rest.index('p1' if kind == 'branch' else 'B'))
            parts.append(P('r', flow / 3, **({} if kind == 'conn3'
                                             else same)))
            lk += [(['q', x], ['r', 'in']), (['r', 'out'], bc('r'))]
        lk += [(['q', x], bc(x)) for x in rest]
    lk = links(*lk)
    if turn < 0:                       # the pump the other way round
        for x in lk:
            for e in x:
                if e[0] == parts[0][1]:
                    e[1] = {'in': 'out', 'out': 'in'}[e[1]]
    return dict(parts=parts, links=lk, bcs={
        e[1]: 20. for x in lk for e in x if e[0] == 'BC'})


def warm():
    for c in cases('quick')[:26] + cases('quick')[-60:]:
        try:
            run(c)
        except Exception:
            pass


def flow_of(t, d, v):
    return round(1000. * v * float(PIPES[t][d]['A_i']), 9)


def areas(t, d, full):
    x = PIPES[t][d]
    if not full:
        return dict(A_i=float(x['A_i']), pipe_type=t,
                    A_wall=float(x['A_o']) - float(x['A_i']))
    return dict({k: float(x[k]) for k in ('A_i', 'A_wall', 'd_i', 'd_o')},
                pipe_type=t)


def same(r, a, b, what, tol=0.):
    ra, ta = a
    rb, tb = b
    if not tol and (len(ta) != len(tb) or np.abs(ta - tb).max() > 1e-6):
        r.fail('%s: time steps differ' % what, 'twin')
        return
    for n in ra:
        e = max(abs(np.interp(1.9, ta, x) - np.interp(1.9, tb, y))
                for x, y in zip(ra[n].T, rb[n].T))
        if e > 1e-9 + tol:
            r.fail('%s: temperatures of %r differ by %.3g K' % (what, n, e),
                   'twin')
            return


def run(case):
    r = Result()
    r.outcome = case['mode']
    globals()['run_' + case['mode']](case, r)
    return r


def run_table(c, r):
    x = {k: float(v) for k, v in PIPES[c['t']][c['d']].items()}
    r.validated += 1
    r.see(c['t'], c['d'], x)
    key = '%s:%s' % (c['t'], c['d'])
    do = DO[c['d']] / 1e3
    s = WALL[c['t']][list(DO).index(c['d'])] / 1e3
    if abs(x['d_o'] / do - 1) > 1e-3:
        r.fail('%s: outer diameter %.4g m, EN 10255: %.4g m' % (
            key, x['d_o'], do), 'do:' + key)
    if abs(x['s'] / s - 1) > .05 or abs(x['d_o'] - x['d_i'] - 2 * x['s']) \
            > 2e-5:
        r.fail('%s: wall %.4g m, EN 10255: %.4g m' % (key, x['s'], s),
               's:' + key)
    for a, d in (('A_i', 'd_i'), ('A_o', 'd_o')):
        if abs(x[a] / (np.pi / 4 * x[d] ** 2) - 1) > 1e-3:
            r.fail('%s: %s = %.5g for %s = %.5g' % (key, a, x[a], d, x[d]),
                   a + ':' + key)
    if abs(x['A_wall'] / (x['A_o'] - x['A_i']) - 1) > .01:
        r.fail('%s: wall area %.5g, but outer - inner area %.5g' % (
            key, x['A_wall'], x['A_o'] - x['A_i']), 'wall:' + key)


def run_cells(c, r):
    p = dict(DN=c['d'], ptype=c['t'], material=c['m'])
    net = paint(network(c['kind'], p, flow_of(c['t'], c['d'], c['v']),
                        c['s']), 'zig')
    s, res, t = simulate(net, 5 * H, max_stepsize=H)
    b = Balance(net, res, t)
    r.transitions += len(t) - 1
    for k, n, q in net['parts']:
        store, gain, scale, dg, cond, pc = b.cells(n)
        if k == 'heated':
            h = np.array(s.parts[n].res_dQ)[1:, :1]
            gain = gain + h / store.shape[1]
        tol = 2e-3 * scale + .12 * dg + .02 * cond + 1.0 * pc + 1e-3
        bad = np.abs(store - gain) > tol
        r.see(k, n, np.round(store, 3))
        r.validated += store.size
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            r.fail('%s of %s %s %s, cell %d, step %d: stored %.6g W, gained '
                   '%.6g W (tolerance %.3g)' % (
                       k, c['t'], c['d'], c['m'], i[1], i[0] + 1, store[i],
                       gain[i], tol[i]), 'cell')
            return


def run_loss(c, r):
    a = dict(T=c['T'], A=20., s=c['ins'], l=.04, n=3,
             dn='%s/%s' % (c['t'], c['d']))
    ua, T, rows = c26.conductances('pipe', **a)
    ref = c26.reference('pipe', **a)
    r.transitions += rows - 1
    r.validated += 1
    r.see(c['t'], c['d'], np.round(ua, 9))
    if np.abs(ua / ref - 1).max() > .015:
        r.fail('%s %s loses %s W/K, expected %.5g' % (
            c['t'], c['d'], ua, ref), 'loss')


def get(net, **kw):
    s, res, t = simulate(net, 2., max_stepsize=.1, **kw)
    return res, t


def run_hand(c, r):
    f = flow_of(c['t'], c['d'], .2)
    a = get(paint(network(c['kind'], dict(DN=c['d'], ptype=c['t']), f),
                  'up', ins=.035))
    b = get(paint(network(c['kind'], dict(pipe_specs={
        'all': areas(c['t'], c['d'], c['full'])}), f), 'up', ins=.035))
    r.transitions += len(a[1]) + len(b[1]) - 2
    r.validated += 1
    r.see(c['kind'], np.round(a[0]['q'][-1], 9))
    # derived diameters: wall areas of the table are rounded
    same(r, a, b, '%s %s %s by areas' % (c['kind'], c['t'], c['d']),
         0. if c['full'] else .02)


def run_ports(c, r):
    one = dict(pipe_type=c['t'], DN=c['d'])
    if c['how'] == 'areas':
        one = areas(c['t'], c['d'], 1)
    ports = fr.ports_of(c['kind'], {})
    a = get(paint(network(c['kind'], dict(pipe_specs={'all': one}), .1),
                  'up'))
    b = get(paint(network(c['kind'], dict(pipe_specs={
        q: copy.deepcopy(one) for q in ports}), .1), 'up'))
    r.transitions += len(a[1]) + len(b[1]) - 2
    r.validated += 1
    r.see(c['kind'], np.round(a[0]['q'][-1], 9))
    same(r, a, b, '%s with %s for each port' % (c['kind'], one))


def run_mixed(c, r):
    """Storage with ports of two sizes: still water, conduction grows with
    the size of the port."""
    if (c['t'], c['d']) not in ALL:
        return
    ua = []
    for d in (c['d'], 'DN25'):
        net = network('tes', dict(T_init=60., pipe_specs={
            'in': dict(pipe_type=c['t'], DN=d),
            'out': dict(pipe_type=TYPES[0], DN='DN25')}), 0.)
        net = paint(net, None, uniform=60.)
        net['parts'][0][2].update(T_init=20., DN=d, ptype=c['t'])
        net['bcs'] = {b: (20. if b == 'BC_a' else 60.) for b in net['bcs']}
        res, t = get(net)
        r.transitions += len(t) - 1
        ua.append(60. - float(res['q'][-1][0]))
        if abs(res['q'][-1][-1] - 60.) > 1e-6:
            r.fail('port without temperature difference exchanges heat',
                   'mixed')
    r.validated += 1
    r.see(c['t'], c['d'], ua)
    x = PIPES[c['t']][c['d']]
    y = PIPES[c['t']]['DN25']
    w = [float(z['A_wall']) * MATS['carbon_steel']['lambda'] +
         float(z['A_i']) * .6 for z in (x, y)]
    if not (.75 < ua[0] / ua[1] / (w[0] / w[1]) < 1.34):
        r.fail('port of %s %s conducts %.4g times as much as DN25, its cross '
               'section says %.4g' % (c['t'], c['d'], ua[0] / ua[1],
                                      w[0] / w[1]), 'mixed')


def run_scale(c, r):
    from multisim import utility_functions as ut
    tab = PIPES[c['t']]
    ai = float(tab[c['d']]['A_i']) * c['f']
    rows = [{k: float(v) for k, v in tab[d].items()} for d in DO
            if (c['t'], d) in ALL]
    if not rows[0]['A_i'] <= ai <= rows[-1]['A_i'] * (1 + 1e-12):
        r.outcome = 'outside'
        return
    x = ut.adjust_pipes({'a': ({'all': dict(pipe_type=c['t'], DN=c['d'])},
                               c['f']),
                         'b': ({'all': dict(pipe_type=TYPES[0],
                                            DN='DN40')}, 1.0)})
    x, ref = x['a']['all'], x['b']['all']
    y = ut.interp_pipe_specs([ai], pipe_type=c['t']).iloc[0].to_dict()
    r.validated += 1
    r.see(c['t'], c['d'], x)
    what = '%s %s x %g' % (c['t'], c['d'], c['f'])
    if abs(ref['d_o'] / .0483 - 1) > 1e-3:
        r.fail('%s: changes another part (%.4g m)' % (what, ref['d_o']),
               'scale')
    if x['pipe_type'] != c['t']:
        r.fail('%s becomes %s' % (what, x['pipe_type']), 'scale')
    for k in ('A_i', 'A_o', 'A_wall', 'd_i', 'd_o', 's'):
        if abs(x[k] / y[k] - 1) > 1e-9:
            r.fail('%s: %s %.6g by adjusting, %.6g by interpolation' % (
                what, k, x[k], y[k]), 'scale')
    good = abs(x['A_i'] / ai - 1) < 1e-9 and \
        abs(x['A_o'] - x['A_i'] - x['A_wall']) < 1e-9 and \
        abs(x['d_i'] ** 2 * np.pi / 4 / x['A_i'] - 1) < 1e-3 and \
        abs(x['d_o'] ** 2 * np.pi / 4 / x['A_o'] - 1) < 1e-3 and \
        abs(x['d_i'] + 2 * x['s'] - x['d_o']) < 1e-5
    if not good:
        r.fail('%s: inconsistent geometry %s' % (what, x), 'scale')
    lo = max(z['A_i'] for z in rows if z['A_i'] <= ai * (1 + 1e-9))
    hi = min(z['A_i'] for z in rows if z['A_i'] >= ai * (1 - 1e-9))
    lo, hi = [[z for z in rows if z['A_i'] == v][0] for v in (lo, hi)]
    for k, w in (('d_o', .03), ('s', .12)):
        a, b = sorted((lo[k], hi[k]))
        if not a * (1 - w) <= x[k] <= b * (1 + w) or (
                lo is hi and abs(x[k] / a - 1) > 1e-6):
            r.fail('%s: %s = %.6g m is not between the neighbours %.6g and '
                   '%.6g' % (what, k, x[k], lo[k], hi[k]), 'scale')


TABLES = ('heat_exchangers', 'material_props', 'material_props_water',
          'pipe_specs')


def run_base(c, r):
    """Tables by name: the bundled ones or those in a directory."""
    from multisim import utility_functions as ut
    src = os.path.join(os.path.dirname(ms.__file__), 'data_tables')
    which = list(c['which']) or 'all'
    tmp = tempfile.mkdtemp(prefix='c19_')
    try:
        kw = {}
        have = sorted(f[:-4] for f in os.listdir(src) if f.endswith('.pkl'))
        if c['path']:
            have = list(TABLES)
            for f in have:
                shutil.copy(os.path.join(src, f + '.pkl'), tmp)
            kw = dict(standard_db=False, path=tmp)
        try:
            got = ut.database_import(which=which, **kw)
        except Exception as e:
            r.fail('tables %s: %s: %s' % (which, type(e).__name__, e),
                   'base')
            return
        want = have if which == 'all' else which
        if sorted(got) != sorted(want):
            r.fail('tables %s asked for, %s given' % (want, sorted(got)),
                   'base')
            return
        for k in want:
            r.validated += 1
            if not pd.read_pickle(os.path.join(src, k + '.pkl')).equals(
                    got[k]):
                r.fail('table %s differs' % k, 'base')
        r.see(want)
    finally:
        shutil.rmtree(tmp)


def run_refuse(c, r):
    net = network(c['kind'], {}, .1)
    net['parts'][1][2].update(c['bad'])
    try:
        run_net(net, .1)
    except (AssertionError, TypeError, ValueError, KeyError,
            NotImplementedError):
        r.validated += 1
        r.see(c['kind'], sorted(c['bad']))
        return
    r.fail('%s accepts %s' % (c['kind'], c['bad']), 'refuse')
