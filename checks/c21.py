"""C21: heat exchangers."""
import itertools

import numpy as np

from mc.core import Result
from mc.models import P, bc, links
from mc.nets import hexspec, run as run_net
from mc.thermref import MATS, cp, rho

META = dict(
    title='Heat exchangers pass heat from hot to cold and lose none of it',
    statement=(
        'A plate heat exchanger gives to its cold side what it takes from '
        'its hot side: the stationary model (HeatExchanger) balances both '
        'enthalpy flows (to 1 %), its outlets lie between the inlets, '
        'without flow on one side the other passes unchanged, more plates '
        'or more flow never lower the conductance, and exchanging the '
        'roles of supply and demand or reversing both flows only renames '
        'the results. The discretised model (HexNum) does so in every '
        'step: what flows into one supply and one demand channel is stored '
        'in the two channels and their plate, heat crosses the plate '
        'only from the warmer to the colder side, and exchanging supply '
        'and demand (seen from the other end) only renames the results. '
        'With equal channel numbers on both sides the whole exchanger '
        'conserves energy.'),
    quantifier=dict(over=['inputs', 'configurations'], text=(
        'all inlet temperatures, flows, flow directions, plate numbers and '
        'passes; every step')),
    why_tests_cant='no test contains a heat exchanger',
    anchors=dict(
        files=['multisim/parts/hex_num.py', 'multisim/parts/heatexchanger.py',
               'multisim/precomp_funs.py'],
        mechanism=[
            dict(name='stationary exchanger',
                 where='precomp_funs.py:solve_platehex'),
            dict(name='discretised exchanger', where='hex_num.py:get_diff, '
                 'precomp_funs.py:hexnum_diff'),
        ],
        state=[dict(name='temperatures', meaning='ports, or cells of supply '
                    'channel, plate and demand channel', where='res')],
        observe_at=['res'],
        hook_needed=None),
    technique='exhaustive enumeration of temperatures, flows, directions '
              'and sizes on the real code, against enthalpy balances and '
              'metamorphic twins',
    level_note=('5 temperature pairs x 4 x 4 flows x directions x plates x '
                'passes x channel side.'),
)
PROPERTY = 'C21'
RULE = '(model, temperatures, flows, directions, plates, passes, channels)'
ASSUMPTIONS = ['inlets with constant temperature']
BOUNDS = 'one exchanger, two pumps'
TEMPS = ((70., 20.), (20., 70.), (90., 10.), (50., 50.), (45., 40.))
H = .004


def cases(tier):
    out = []
    fl = (0., .02, .1, .4) if tier == 'quick' else (0., .005, .02, .1, .4, 1.)
    for T in TEMPS:
        for fs, fd in itertools.product(fl, repeat=2):
            for pl, mc in ((10, 'supply'), (10, 'demand'), (4, 'supply'),
                           (30, 'demand')):
                out.append(dict(kind='hex', T=T, f=(fs, fd), plates=pl,
                                mc=mc))
            for ds, dd in itertools.product((1, -1), repeat=2):
                for pl, ps, mc, n in (
                        (10, 1, 'supply', 4), (10, 1, 'demand', 3),
                        (4, 1, 'supply', 2), (9, 2, 'supply', 4),
                        (13, 3, 'supply', 3)):
                    if tier == 'quick' and pl in (4, 13) and \
                            (ds, dd) != (1, 1):
                        continue
                    out.append(dict(kind='hexnum', T=T, f=(fs, fd),
                                    d=(ds, dd), plates=pl, passes=ps, mc=mc,
                                    n=n))
    for T, f in itertools.product(TEMPS[:3], ((.1, .15), (.15, .1),
                                              (.05, .3))):
        for pl, ps in ((9, 2), (13, 3), (17, 2), (10, 1)):
            out.append(dict(kind='total', T=T, f=f, plates=pl, passes=ps))
    return out


def net_of(kind, T, f, d=(1, 1), **k):
    def side(n, s, d):
        i, o = ('_in', '_out') if d > 0 else ('_out', '_in')
        return [(bc(n), [n, 'in']), ([n, 'out'], ['h', s + i]),
                (['h', s + o], bc(n + 'x'))]
    return dict(
        parts=[P('p', f[0], T_init=T[0], T_amb=T[0]),
               P('r', f[1], T_init=T[1], T_amb=T[1]), [kind, 'h', k]],
        links=links(*(side('p', 'sup', d[0]) + side('r', 'dmd', d[1]))),
        bcs={'BC_p': T[0], 'BC_px': T[0], 'BC_r': T[1], 'BC_rx': T[1]})


def warm():
    run(dict(kind='hex', T=TEMPS[0], f=(.1, .1), plates=10, mc='supply'))
    run(dict(kind='hexnum', T=TEMPS[0], f=(.1, .1), d=(1, 1), plates=10,
             passes=1, mc='supply', n=4))


def stationary(T, f, d=(1, 1), plates=10, mc='supply'):
    s = run_net(net_of('hex', T, f, d, plates=plates, max_channels=mc), .3,
                max_stepsize=.05)
    x = np.array(s.parts['h'].res)[-1]
    if d[0] < 0:
        x = x[[1, 0, 2, 3]]
    if d[1] < 0:
        x = x[[0, 1, 3, 2]]
    return s, x                     # sup in, sup out, dmd in, dmd out


OTHER = {'supply': 'demand', 'demand': 'supply'}


def conductance(x, f):
    """UA of a counterflow exchanger from its four temperatures."""
    a, b = x[0] - x[3], x[1] - x[2]
    q = f[0] * cp((x[0] + x[1]) / 2) * (x[0] - x[1])
    if abs(a - b) < 1e-6 * abs(a + b):
        return q / a
    if a * b <= 0:
        return np.inf
    return q / ((a - b) / np.log(a / b))


def run_hex(case, r):
    T, f, pl, mc = case['T'], case['f'], case['plates'], case['mc']
    s, x = stationary(T, f, plates=pl, mc=mc)
    r.transitions += len(s.time_vec) - 1
    r.see('hex', np.round(x, 9))
    r.validated += 1
    lo, hi = min(T), max(T)
    if (x < lo - 1e-6).any() or (x > hi + 1e-6).any():
        r.fail('temperatures %s leave %g .. %g' % (x, lo, hi), 'bounds')
    if abs(x[0] - T[0]) > 1e-3 and f[0] or abs(x[2] - T[1]) > 1e-3 and f[1]:
        r.fail('inlets %s, connected %s' % (x[[0, 2]], T), 'inlet')
    if not f[0] or not f[1]:
        for i, j in ((0, 1), (2, 3)):
            if abs(x[i] - x[j]) > 1e-3:
                r.fail('one side stands still, but %s' % x, 'still')
        r.outcome = 'hex still'
        return
    qs = f[0] * cp((x[0] + x[1]) / 2) * (x[0] - x[1])
    qd = f[1] * cp((x[2] + x[3]) / 2) * (x[3] - x[2])
    if abs(qs - qd) > .01 * max(abs(qs), abs(qd)) + 1e-3:
        r.fail('supply gives %.6g W, demand takes %.6g W' % (qs, qd),
               'balance')
    for what, twin, perm in (
            ('both flows reversed', dict(T=T, f=f, d=(-1, -1), plates=pl,
                                         mc=mc), [0, 1, 2, 3]),
            ('sides exchanged', dict(T=T[::-1], f=f[::-1], plates=pl,
                                     mc=OTHER[mc]), [2, 3, 0, 1])):
        s2, y = stationary(**twin)
        r.transitions += len(s2.time_vec) - 1
        if np.abs(y[perm] - x).max() > 1e-6:
            r.fail('%s: %s instead of %s' % (what, y[perm], x), 'twin')
            return
    if T[0] != T[1]:
        ua = conductance(x, f)
        if not ua > 0:
            r.fail('conductance %g' % ua, 'conductance')
        if not np.isfinite(ua) or ua > 40 * min(f) * 4180:
            return                  # saturated: not resolved any more
        for what, twin in (('two plates more', dict(plates=pl + 2)),
                           ('more supply flow', dict(
                               f=(f[0] * 1.5, f[1]))),
                           ('more demand flow', dict(
                               f=(f[0], f[1] * 1.5)))):
            g = dict(dict(T=T, f=f, plates=pl, mc=mc), **twin)
            s2, y = stationary(**g)
            u2 = conductance(y, g['f'])
            if u2 < .98 * ua:
                r.fail('%s lowers the conductance from %.6g to %.6g W/K' % (
                    what, ua, u2), 'conductance')
                return
    r.outcome = 'hex'


def numeric(T, f, d, plates, passes, mc, n, tf=12 * H):
    net = net_of('hexnum', T, f, d, plates=plates, passes=passes,
                 max_channels=mc, grid_points=n, T_init=(T[0] + T[1]) / 2)
    if passes > 1:
        del net['parts'][2][2]['max_channels']
        net['parts'][2][2]['max_channels'] = 'equal'
    s = run_net(net, tf, **({} if tf > 1. else dict(max_stepsize=H)))
    return s, np.array(s.parts['h'].res), np.array(s.time_vec), \
        {k: np.array(s.parts[k].res)[:, -1] for k in 'pr'}


def run_num(case, r):
    T, f, d, n = case['T'], case['f'], case['d'], case['n']
    args = dict(T=T, f=f, d=d, plates=case['plates'], passes=case['passes'],
                mc=case['mc'], n=n)
    s, x, t, src = numeric(**args)
    r.transitions += len(t) - 1
    r.validated += 1
    r.see('num', np.round(x, 9))
    spec = hexspec()
    pl = case['plates']
    if case['passes'] == 1:
        ch = [pl // 2, pl // 2 - 1] if case['mc'] == 'supply' else \
            [pl // 2 - 1, pl // 2]
    else:
        ch = [(pl - 1) // case['passes'] // 2] * 2
    m = n * case['passes'] if x.shape[1] != n else n
    lo, hi = min(T), max(T)
    if x.min() < lo - 1e-3 or x.max() > hi + 1e-3:
        r.fail('temperatures %g .. %g leave %g .. %g' % (
            x.min(), x.max(), lo, hi), 'bounds')
    h = np.diff(t)
    dm = [f[0] * d[0], -f[1] * d[1]]        # towards rising cell index
    heat = np.zeros((2, len(h), n))         # from the channel to the plate
    tol = np.zeros((2, len(h), n))
    net_in, store, scale = 0., 0., 0.
    for j, (col, port) in enumerate(((0, 'p'), (2, 'r'))):
        c = x[:, :, col]
        cap = spec['V_channel'] / n * rho(c) * cp(c)
        fl = dm[j] / ch[j]
        ext = np.c_[src[port], c, src[port]]
        hh = cp(ext) * ext
        e = fl * (hh[:, :-2] - hh[:, 1:-1]) if fl > 0 else \
            fl * (hh[:, 1:-1] - hh[:, 2:]) if fl < 0 else 0. * c
        em = (e[1:] + e[:-1]) / 2
        st = (cap[1:] + cap[:-1]) / 2 * np.diff(c, axis=0) / h[:, None]
        heat[j] = em - st
        tol[j] = .01 * np.abs(st) + .25 * np.abs(np.diff(e, axis=0)) + \
            3e-3 * abs(fl) * 4180 * 10 + .5
        net_in = net_in + em.sum(axis=1)
        store = store + st.sum(axis=1)
        scale = scale + np.abs(em).sum(axis=1) + np.abs(st).sum(axis=1)
    w = x[:, :, 1]
    cw = spec['mass_per_plate'] * MATS['carbon_steel']['c_p'] / n
    stw = cw * np.diff(w, axis=0) / h[:, None]
    store = store + stw.sum(axis=1)
    scale = scale + np.abs(stw).sum(axis=1)
    bad = np.abs(store - net_in) > .02 * scale + tol.sum(axis=(0, 2))
    if bad[1:].any():
        k = int(np.argmax(bad[1:])) + 1
        r.fail('step %d: channels and plate store %.6g W, %.6g W flow in' % (
            k, store[k], net_in[k]), 'channel')
        return
    for j, col in enumerate((0, 2)):
        c = x[:, :, col]
        # heat at the middle of the step runs down the temperature
        d0, d1 = (c - w)[:-1], (c - w)[1:]
        down = (d0 > .5) & (d1 > .5) & (heat[j] < -tol[j])
        up = (d0 < -.5) & (d1 < -.5) & (heat[j] > tol[j])
        b2 = (down | up)[1:]
        if b2.any():
            i = tuple(int(v) for v in np.argwhere(b2)[0])
            r.fail('step %d cell %d: %s gets %.5g W from a plate that is '
                   '%.3g K colder' % (
                       i[0] + 1, i[1], ('supply', 'demand')[j],
                       -heat[j][1:][i], d0[1:][i]), 'uphill')
            return
    # exchange the sides and look from the other end
    y = numeric(T=T[::-1], f=f[::-1], d=(-d[1], -d[0]), plates=pl,
                passes=case['passes'], mc=OTHER[case['mc']], n=n)[1]
    k = min(len(x), len(y))
    if len(x) != len(y) or np.abs(x[:k] - y[:k, :, ::-1]).max() > 1e-6:
        r.fail('exchanging supply and demand changes the temperatures by '
               '%.3g K' % np.abs(x[:k] - y[:k, :, ::-1]).max(), 'twin')
        return
    r.outcome = 'num %d pass' % case['passes']


def run_total(case, r):
    T, f = case['T'], case['f']
    s, x, t, src = numeric(T, f, (1, 1), case['plates'], case['passes'],
                           'supply', 4, tf=60.)
    r.transitions += len(t) - 1
    x = x[-1]
    r.see('total', np.round(x, 6))
    qs = f[0] * (cp(T[0]) * T[0] - cp(x[-1, 0]) * x[-1, 0])
    qd = f[1] * (cp(x[0, 2]) * x[0, 2] - cp(T[1]) * T[1])
    r.validated += 1
    if abs(qs - qd) > .02 * max(abs(qs), abs(qd)):
        r.fail('stationary: supply gives %.6g W, demand takes %.6g W' % (
            qs, qd), 'total-unequal-channels' if case['passes'] == 1 and
            abs(qs / qd - 1.25) < .03 else 'total')
    r.outcome = 'total'


def run(case):
    r = Result()
    if case['kind'] == 'total':
        run_total(case, r)
        return r
    if case['kind'] == 'hex':
        run_hex(case, r)
    else:
        run_num(case, r)
    return r
