"""C25: every recorded row is one Heun step away from the row before."""
import itertools

import numpy as np

from mc import flowref as fr
from mc.core import Result
from mc.heunref import Heun, buoyancy
from mc.models import P, bc, links
from mc.thermal import paint, simulate

META = dict(
    title='Each recorded step is one Heun step of all parts from the row before',
    statement=(
        'Every recorded row of temperatures follows from the row before by '
        'one step of Heun\'s method over the recorded time difference '
        '(Euler predictor with the slopes at the old row, then the mean of '
        'the slopes at the old row and at the predicted state), taken by '
        'all pipe-like parts and storages together: each stage uses the '
        'temperatures its neighbours have at that same stage, the mass '
        'flows and heat rates of that step and the open port temperatures. '
        'Nothing else has an influence: attempts that were rejected as '
        'unstable or inaccurate leave no trace, nor do earlier flows, '
        'earlier flow directions, the order in which parts were added or '
        'how often the result storage was enlarged.'),
    quantifier=dict(over=['histories', 'programs', 'inputs'], text=(
        'all networks, flow histories with reversals and standstills and '
        'step histories with rejected steps; every cell of every step')),
    why_tests_cant=(
        'a stale flow or port value shows only in the step after a '
        'reversal or a rejected step; tests fix the flows and compare '
        'final values of one network'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/precomp_funs.py'],
        mechanism=[
            dict(name='Heun step with retries',
                 where='simenv.py:_heun_adaptive'),
            dict(name='corrector', where='precomp_funs.py:'
                 '_heun_corrector_adapt'),
            dict(name='port backup', where='simenv.py:__parr_bkp'),
            dict(name='flows of the step', where='precomp_funs.py:'
                 '_process_flow_invar/_var/_multi_flow'),
            dict(name='stage temperatures at ports', where='precomp_funs.py:'
                 '_upddate_ports_interm, _upddate_ports_result'),
        ],
        state=[dict(name='port temperatures', meaning='neighbour values of '
                    'the current stage', where='SimEnv.ports_all')],
        observe_at=['res', 'res_dm of pumps', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of flow histories and step settings '
              'on the real code; every step replayed by an independent '
              'reference integrator',
    level_note=(
        'All flow words of two pumps (3 levels each, up to 3 switching '
        'points) around one part with forced reversals, for every part kind '
        'and orientation, plus wirings and step settings that force '
        'rejections. Insulated parts; parts without mass and heat exchangers are '
        'left to C02 and C21.'),
)
PROPERTY = 'C25'
RULE = ('(part kind, orientation, flow word, step settings); each row '
        'compared with the reference step from the row before, tolerance '
        '1e-6 K + 2e-5 of the largest change of the part in the step')
ASSUMPTIONS = ['water properties are the documented polynomials',
               'insulation with 1e-7 W/(m K) is perfect',
               'the recorded flow of a pump is its flow in the step that '
               'ends at the row']
BOUNDS = 'networks of up to 5 parts, runs of 4 s'
LEV = (0., .06, .15)


def rig(kind, flip, word, d, order=0):
    """A pushes into a branch, B sucks from it, the rest passes the part x."""
    def pump(n, i):
        w = [x[i] for x in word]
        return ['pump', n, dict(
            start_massflow=w[0], ctrl_required=False,
            time_series=[[k * d, v] for k, v in enumerate(w + w[-1:] * 6)])]
    parts = [pump('a', 0), pump('b', 1), ['branch', 'y', {}]]
    lk = [(bc('a'), ['a', 'in']), (['a', 'out'], ['y', 'p1']),
          (['y', 'in'], ['b', 'in']), (['b', 'out'], bc('b'))]
    prm = {'opening': .3} if kind == 'valve' else \
        {'heat': 1500.} if kind == 'heated' else {}
    if kind == 'tes':
        prm = dict(volume=.004, outer_diameter=.1)
    if kind == 'twice':
        parts += [['pipe', 'x', {}], ['pipe', 'z', dict(
            length=.7, grid_points=4, DN='DN32')]]
        s, e = ('in', 'out') if not flip else ('out', 'in')
        lk += [(['y', 'out'], ['x', s]), (['x', e], ['z', e]),
               (['z', s], bc('x'))]
    elif kind == 'branch2':
        parts += [['branch', 'x', {}], P('c', .05)]
        s, e = ('in', 'out') if not flip else ('p1', 'in')
        o = 'p1' if not flip else 'out'
        lk += [(['y', 'out'], ['x', s]), (['x', e], bc('x')),
               (['x', o], ['c', 'in']), (['c', 'out'], bc('c'))]
    else:
        parts.append([kind, 'x', prm])
        q = fr.ports_of(kind, prm)
        if kind == 'valve':
            q = ['AB', 'A', 'B']
        if flip:
            q = q[1:2] + q[:1] + q[2:]
        lk.append((['y', 'out'], ['x', q[0]]))
        lk += [(['x', z], bc(z)) for z in q[1:]]
    lk = links(*lk)
    if order:
        parts = parts[::-1]
    return dict(parts=parts, links=lk,
                bcs={e[1]: 0. for x in lk for e in x if e[0] == 'BC'})


KINDS = ('pipe', 'heated', 'tes', 'valve', 'branch2', 'twice')


def cases(tier):
    out = []
    big = tier == 'thorough'
    pairs = list(itertools.product(LEV, repeat=2))
    for kind in KINDS:
        for flip in (0, 1):
            for pat in ('zig', 'down', 'up') if big else \
                    ('zig',):
                for w in itertools.product(pairs, repeat=2):
                    out.append(dict(kind=kind, flip=flip, w=w, pat=pat,
                                    d=1., order=flip))
    for w in itertools.product(pairs, repeat=3):
        for kind in KINDS if big else ('pipe',):
            out.append(dict(kind=kind, flip=1, w=w, pat='zig', d=.75, order=0))
    # step settings that make steps fail, and the storage of rows grow
    for kind in KINDS:
        for w in ([(.15, .06), (.06, .15)], [(0., .06), (.15, 0.)],
                  [(.06, .06), (0., .15)], [(0., 0.), (.15, .15)]):
            for pat in ('zig', 'down', 'up'):
                for kw in (dict(rtol=1e-6, atol=1e-6),
                           dict(rtol=1e-4, atol=1e-4),
                           dict(safety_factor=.99, max_factor=10.,
                                factor_recovery=1, rtol=1e-4, atol=1e-4),
                           dict(max_factor=10., factor_recovery=1),
                           dict(max_stepsize=.05),
                           dict(max_stepsize=.002)):
                    out.append(dict(kind=kind, flip=0, w=w, pat=pat, d=1.,
                                    order=1, kw=kw,
                                    tf=.7 if 'max_stepsize' in kw else 3.))
    return out


def warm():
    for k in KINDS:
        run(dict(kind=k, flip=0, w=[(.06, .15)], pat='zig', d=1., order=0))


def run(case):
    r = Result()
    net = rig(case['kind'], case['flip'], case['w'], case['d'],
              case['order'])
    net = paint(net, case['pat'])
    s, res, t = simulate(net, case.get('tf', case['d'] * len(case['w']) + .5),
                         **case.get('kw', {}))
    replay(r, net, s, res, t)
    return r


def replay(r, net, s, res, t, check=None):
    """Compare every row with the reference step from the row before."""
    H = Heun(net, buoyancy)
    pumps = [n for k, n, p in net['parts'] if k == 'pump']
    dm = {n: np.array(s.parts[n].res_dm).reshape(len(t), -1)[:, 0]
          for n in pumps}
    heat = {n: np.array(s.parts[n].res_dQ).reshape(len(t), -1)[:, 0]
            / res[n].shape[1] for k, n, p in net['parts'] if k == 'heated'}
    bcs = {b: float(v) for b, v in net['bcs'].items()}
    flows, dirs = {}, set()
    for i in range(1, len(t)):
        f = tuple(dm[n][i] for n in pumps)
        if f not in flows:
            flows[f] = fr.solve(net, dict(zip(pumps, f)))
        T = {n: res[n][i - 1] for n in res}
        R, Pr = H.step(T, t[i] - t[i - 1], flows[f], bcs,
                       {n: heat[n][i] for n in heat})
        r.transitions += 1
        dirs.add(tuple(np.sign(v) for v in flows[f].values()))
        if check:
            check(i, T, R, Pr)
        for k, n, p in net['parts']:
            d = np.abs(R[n] - res[n][i])
            tol = 1e-6 + 2e-5 * np.abs(R[n] - T[n]).max()
            r.validated += len(d)
            if not (d <= tol).all():
                c = int(np.argmax(d))
                r.fail('%s %r row %d (t=%g): cell %d is at %.9g, one step '
                       'from the row before leads to %.9g (was %.9g)' % (
                           k, n, i, t[i], c, res[n][i][c], R[n][c], T[n][c]),
                       'step')
                return r
    r.see(*(np.round(res[n], 5) for n in res))
    r.outcome = '%d flow patterns' % len(dirs)
    return r
