"""C20: heat of a heated pipe or CHP plant goes where it was asked to."""
import numpy as np

from mc.core import Result
from mc.models import CHP, P, chain, links, bc
from mc.nets import run as run_net
from mc.thermal import paint
from mc.thermref import Balance, ngp

META = dict(
    title='Heat sources add their heat to the chosen cells, within limits',
    statement=(
        'A heated pipe or CHP plant adds the recorded rate of heat flow to '
        'the configured cells only, in equal shares (all cells, a single '
        'cell, or the cells from start up to but not including end), and '
        'no heat elsewhere, whatever the grid, flow and flow direction. A '
        'heated pipe adds what its controller demands, clipped to its '
        'limits, and nothing in a step that starts with any of '
        'its cells at 110 °C or more, but heats again below that. '
        'Positions outside of the pipe are refused.'),
    quantifier=dict(over=['configurations', 'inputs', 'histories'], text=(
        'all grids, heated cells, heat rates, limits, flows, directions and '
        'temperatures; every cell and step')),
    why_tests_cant='the placement is a product of grid size, spread mode '
                   'and position; no test has a heated pipe',
    anchors=dict(
        files=['multisim/parts/heated_pipe.py',
               'multisim/parts/chp_plant.py', 'multisim/precomp_funs.py'],
        mechanism=[
            dict(name='placement', where='heated_pipe.py:__init__ '
                 'heat_spread, chp_plant.py:__init__'),
            dict(name='heating', where='precomp_funs.py:heatedpipe1D_diff'),
        ],
        state=[dict(name='heat rate', meaning='W per step',
                    where='res_dQ'),
               dict(name='cell temperatures', meaning='per step',
                    where='res')],
        observe_at=['res', 'res_dQ'],
        hook_needed=None),
    technique='exhaustive enumeration of placements, grids, rates and '
              'directions on the real code, against an independent cell '
              'energy balance',
    level_note=('All placements in grids of 2..5 (thorough: 8) cells, 3 '
                'flows in both directions, 3 rates; emergency temperature '
                'at every cell.'),
)
PROPERTY = 'C20'
RULE = ('(part, grid, spread, cells, flow, direction, rate) or (hot cell, '
        'temperature); every cell and step of the balance')
ASSUMPTIONS = ['insulation with 1e-7 W/(m K) is perfect']
BOUNDS = 'grids of up to 8 cells'
H = .02


def spreads(n):
    yield 'all', None, range(n)
    for i in range(n):
        yield 'single', i, [i]
    for a in range(n):
        for b in range(a + 1, n):
            yield 'range', [a, b], range(a, b)


def cases(tier):
    out = []
    for n in (2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6, 8):
        for sp, hc, cells in spreads(n):
            for f in (0., .03, .2):
                for d in (1, -1):
                    if f == 0. and d < 0:
                        continue
                    for q in (0., 800., 4000.):
                        if q == 0. and sp != 'all' and tier == 'quick':
                            continue
                        out.append(dict(kind='heated', n=n, sp=sp, hc=hc,
                                        cells=list(cells), f=f, d=d, q=q))
            for d in (1, -1):
                out.append(dict(kind='chp', n=n, sp=sp, hc=hc,
                                cells=list(cells), f=.1, d=d))
    # limits
    for lo, hi in ((0., 500.), (100., 900.), (0., 1e4)):
        for q in (-50., 0., 60., 100., 500., 900., 2000.):
            out.append(dict(kind='heated', n=3, sp='all', hc=None,
                            cells=[0, 1, 2], f=.1, d=1, q=q, lim=[lo, hi]))
    # emergency shutdown
    for n in (2, 4):
        for i in range(-1, n + 1):
            for T in (109.5, 109.99, 110.01, 112.):
                out.append(dict(kind='heated', n=n, sp='all', hc=None,
                                cells=list(range(n)), f=.1, d=1, q=3000.,
                                hot=i, T=T))
    # positions outside of the pipe
    for kind in ('heated', 'chp'):
        for n in (3, 4):
            for sp, hc in (('single', -1), ('single', n), ('single', n + 3),
                           ('range', [-1, 2]), ('range', [2, 2]),
                           ('range', [2, 1]), ('range', [1, n + 1]),
                           ('range', [0]), ('range', [n, n + 1]),
                           ('single', None), ('range', None),
                           ('some', None), ('single', 1.5)):
                out.append(dict(kind=kind, n=n, sp=sp, hc=hc, bad=True,
                                f=.1, d=1, q=100., cells=[]))
    return out


def net_of(case):
    n = case['n']
    prm = dict(grid_points=n, heat_spread=case['sp'], length=1.)
    if case['hc'] is not None:
        prm['heated_cells'] = case['hc']
    if case['kind'] == 'chp':
        prm = dict(CHP, **prm)
        prm.update(chp_on_at_start=True, start_modulation=1.,
                   ctrl_required=False, const_val=1.)
    else:
        prm['heat'] = case['q']
        if 'lim' in case:
            prm.update(lower_limit=case['lim'][0],
                       upper_limit=case['lim'][1])
    parts = [P('p', case['f']), [case['kind'], 'h', prm]]
    if case['d'] > 0:
        lk = chain('p', 'h')
    else:
        lk = links((bc('a'), ['p', 'in']), (['p', 'out'], ['h', 'out']),
                   (['h', 'in'], bc('z')))
    return dict(parts=parts, links=lk, bcs={'BC_a': 30., 'BC_z': 40.})


def warm():
    for k in ('heated', 'chp'):
        run([c for c in cases('quick') if c['kind'] == k][0])


def run(case):
    r = Result()
    net = net_of(case)
    if 'bad' in case:
        try:
            run_net(net, 3 * H, max_stepsize=H)
        except Exception as e:
            r.outcome = 'refused'
            r.see('refused', case['kind'], case['sp'], str(case['hc']),
                  type(e).__name__)
            return r
        r.fail('%s of %d cells accepts heat_spread=%r, heated_cells=%r' % (
            case['kind'], case['n'], case['sp'], case['hc']), 'refuse')
        return r
    net = paint(net, 'up')
    if case['kind'] == 'chp':
        # stay below the temperature limits of the plant
        net['parts'][1][2]['T_init'] = [30. + 5 * i
                                        for i in range(case['n'])]
    if 'hot' in case:
        t0 = [60.] * case['n']
        i = case['hot']
        if 0 <= i < case['n']:
            t0[i] = case['T']
        net['parts'][1][2]['T_init'] = t0
        # neighbour on either side
        net['parts'][0][2]['T_init'] = [60., 60.,
                                        case['T'] if i < 0 else 60.]
        net['bcs'].update(BC_a=60., BC_z=case['T'] if i == case['n'] else 60.)
    s = run_net(net, 6 * H, max_stepsize=H)
    t = np.array(s.time_vec)
    res = {n: np.array(s.parts[n].res) for k, n, p in net['parts']}
    q = np.array(s.parts['h'].res_dQ)[:, 0]
    b = Balance(net, res, t)
    store, gain, scale, dg, cond, pc = b.cells('h')
    share = np.zeros(case['n'])
    share[case['cells']] = 1. / len(case['cells'])
    exp = gain + q[1:, None] * share
    tol = 2e-3 * scale + .12 * dg + .02 * cond + pc + 2e-3 * q.max() + 1e-3
    if 'hot' in case:       # beyond the property table of the reference
        tol = np.inf
    r.transitions += len(t) - 1
    r.validated += store.size
    r.see(case['kind'], np.round(store, 2), np.round(q, 6))
    bad = np.abs(store - exp) > tol
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        r.fail('step %d cell %d: stored %.6g W, expected %.6g W (of which '
               '%.6g W heat)' % (i[0] + 1, i[1], store[i], exp[i],
                                 q[i[0] + 1] * share[i[1]]), 'cell')
        return r
    if case['kind'] == 'heated' and 'hot' not in case:
        lo, hi = case.get('lim', (0., 1e4))
        want = min(max(case['q'], lo), hi)
        if (np.abs(q[2:] - want) > 1e-6 * want + 1e-9).any():
            r.fail('heats with %s W instead of %g W' % (q[2:], want), 'rate')
        if q[1] and not lo - 1e-9 <= q[1] <= hi + 1e-9:
            r.fail('starts with %g W' % q[1], 'rate')
    elif case['kind'] == 'chp':
        if (np.abs(q[1:] - 2000. / .516796) > 1.).any():
            r.fail('CHP plant heats with %s W' % q[1:], 'rate')
    else:
        for k in range(2, len(t)):
            m = res['h'][k - 1].max()
            if m > 110.005 and q[k] != 0.:
                r.fail('step %d starts at %.6g °C and heats with %g W' % (
                    k, m, q[k]), 'emergency')
                return r
            if m < 109.9 and abs(q[k] - case['q']) > 1e-6:
                r.fail('step %d starts at %.6g °C but heats with %g W only'
                       % (k, m, q[k]), 'emergency')
                return r
    r.outcome = case['kind'] + (' hot' if 'hot' in case else '')
    return r
