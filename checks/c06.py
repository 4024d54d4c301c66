"""C06: the time axis and the step size limits."""
import itertools

import numpy as np

from mc.core import Result
from mc.models import P, bc, library, links, net as mknet
from mc.nets import run as run_net

META = dict(
    title='The time axis covers the timeframe within all step size limits',
    statement=(
        'The recorded time axis of every run starts at 0, increases strictly '
        'and ends with the first step that reaches the timeframe; every '
        'result array has exactly one row per time. No step exceeds '
        'max_stepsize (including the first and the last one), no step grows '
        'by more than max_factor over its predecessor, and steps fall below '
        'min_stepsize only where stability demands it (or the run is given '
        'up with an error saying so). A step that is not '
        'rejected never shrinks the following one. In every accepted step the '
        'water that flows through a cell of a pipe-like part or storage '
        '(recorded |mass flow| * step) is at most the water it holds.'),
    quantifier=dict(over=['configurations', 'inputs', 'histories'], text=(
        'all combinations of timeframe, step limits, growth factor, '
        'recovery, safety factor and tolerance, every step of every run')),
    why_tests_cant=(
        'the tests do not look at the step sizes; the adaptive control is a '
        'feedback loop whose limits must hold at every step of every '
        'history, including right after rejected steps'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/precomp_funs.py'],
        mechanism=[
            dict(name='adaptive step control',
                 where='simenv.py:_heun_adaptive'),
            dict(name='stability limit of each part',
                 where='precomp_funs.py:_vonNeumann_stability_*'),
            dict(name='main loop', where='simenv.py:start_sim'),
            dict(name='cropping to the steps taken',
                 where='simenv.py:_crop_results'),
        ],
        state=[dict(name='next step size', meaning='proposal for the next '
                    'step', where='SimEnv._new_step')],
        observe_at=['time_vec', 'length of res and res_dm', 'res_dm'],
        hook_needed=None),
    technique='exhaustive enumeration of solver settings over a set of '
              'networks on the real code, step-by-step invariant monitor',
    level_note=('Full product of the listed settings for eight networks; '
                'the limits are checked on every accepted step.'),
)
PROPERTY = 'C06'
RULE = ('(network, timeframe, max/min step, growth factor, tolerance, '
        'recovery, safety) - full product; non-trivial: more than 2 steps')
ASSUMPTIONS = ['water density is at most 1000 kg/m3']
BOUNDS = 'timeframes up to 8 s, step limits 0.02..100 s'
NETS = ['pipe', 'tes', 'heated', 'valve', 'hex', 'mix', 'closed', 'chp']


def cases(tier):
    out = []
    big = tier == 'thorough'
    tfs = [.3, 1.0, 2.75] + ([7.0] if big else [])
    maxs = [None, .1, .4, 1.5]
    mins = [None, .05]
    facs = [None, 1.1, 4.0]
    rec = [None, 1, 3]
    tol = [None, 1e-2, 1e-5] if big else [None, 1e-2]
    saf = [None, .5]
    for name in NETS:
        for tf, mx, mn, f, rc, tl, sf in itertools.product(
                tfs, maxs, mins, facs, rec, tol, saf):
            if not big and (mn is not None) + (f is not None) + \
                    (rc is not None) + (tl is not None) + \
                    (sf is not None) > 3:
                continue
            kw = {k: v for k, v in dict(
                max_stepsize=mx, min_stepsize=mn, max_factor=f,
                factor_recovery=rc, rtol=tl, safety_factor=sf).items()
                if v is not None}
            out.append(dict(m=name, tf=tf, kw=kw))
    # stiff: flow so large that stability governs the step, and flows that
    # switch during the run
    for flow in (1.0, 3.0, 20.0):
        for mx, mn, f, rc in itertools.product(
                maxs, [None, .05, .09], facs, rec):
            kw = {k: v for k, v in dict(
                max_stepsize=mx, min_stepsize=mn, max_factor=f,
                factor_recovery=rc).items() if v is not None}
            out.append(dict(m='pipe', tf=1.0, kw=kw, flow=flow))
            out.append(dict(m='tes', tf=1.0, kw=kw, flow=flow))
    # storages in which the inner flow exceeds every port flow
    for sg in (1, -1):
        for kind in ('tes', 'branch'):
            for mx, f, rc, fl in itertools.product(
                    [None, 1.5], facs, rec, [.2, .5]):
                kw = {k: v for k, v in dict(
                    max_stepsize=mx, max_factor=f, factor_recovery=rc
                ).items() if v is not None}
                for still in (True, False):
                    out.append(dict(m='inner', sg=sg, kind=kind, tf=20.0,
                                    kw=kw, fl=fl, iso=still))
    # nothing happens: the error is zero and steps may only grow
    for mx, mn, f in itertools.product(maxs, mins, facs):
        kw = {k: v for k, v in dict(max_stepsize=mx, min_stepsize=mn,
                                    max_factor=f).items() if v is not None}
        for tf in (1.0, 30.0, 300.0):
            if tf / (mx or 100) > 400:
                continue
            out.append(dict(m='pipe', tf=tf, kw=kw, still=True))
    return out


def inner(case):
    """Two pumps in at the top, one out in the middle (or mirrored)."""
    a, x, y = ('in', 'x', 'y') if case['sg'] > 0 else ('out', 'y', 'x')
    z = 'out' if a == 'in' else 'in'
    big = dict(length=30.0)
    fl = case['fl']
    if case['kind'] == 'tes':
        q = ['tes', 't', {'volume': .004, 'outer_diameter': .1,
                          'new_ports': {'x': [1, 'index'],
                                        'y': [2, 'index']}}]
    else:
        q = ['branch', 't', {'length': 6.0, 'new_ports': {
            'x': [1, 'index'], 'y': [2, 'index']}}]
    lnk = links((bc('a'), ['p', 'in']), (['p', 'out'], ['t', a]),
                (bc('b'), ['r', 'in']), (['r', 'out'], ['t', x]),
                (['t', y], ['s', 'in']), (['s', 'out'], bc('c')),
                (['t', z], bc('d')))
    hot = 20.0 if case['iso'] else 60.0
    return mknet([P('p', fl, **big), P('r', fl, **big), P('s', fl, **big), q],
                 lnk, {'BC_a': hot, 'BC_b': 20.0, 'BC_c': 20.0, 'BC_d': 20.0})


def warm():
    for name in NETS:
        net, tf, kw = library()[name]
        run_net(net, .3, **kw)


def run(case):
    r = Result()
    if case['m'] == 'inner':
        net, base = inner(case), {}
    else:
        net, _, base = library()[case['m']]
    kw = dict(base, **case['kw'])
    if 'flow' in case:
        net = dict(net, parts=[[k, n, dict(p, flow=case['flow'])]
                               if k == 'pump' else [k, n, p]
                               for k, n, p in net['parts']])
    if case.get('still'):
        net = dict(net, parts=[[k, n, dict(p, flow=0.0)]
                               if k == 'pump' else [k, n, p]
                               for k, n, p in net['parts']],
                   bcs={b: 20.0 for b in net['bcs']})
    try:
        s = run_net(net, case['tf'], **kw)
    except ValueError as e:
        # the solver may give up where stability forbids min_stepsize: a cell
        # of the pump's pipe (1 m in 3 cells, DN25) holds less than 0.22 kg
        if 'stable' in str(e) and kw.get('min_stepsize', 0) * \
                case.get('flow', 0) > .15:
            r.outcome = 'given up: min_stepsize unstable'
            r.nontrivial = False
            return r
        raise
    t = np.array(s.time_vec)
    n = len(t)
    r.transitions = n - 1
    r.nontrivial = n > 3
    mx = kw.get('max_stepsize', 100.0)
    mn = kw.get('min_stepsize', 1e-8)
    fac = kw.get('max_factor', 2.0)
    tf = case['tf']
    eps = 1e-9
    if t[0] != 0:
        r.fail('time axis starts at %r' % t[0])
    d = np.diff(t)
    if n < 2 or (d <= 0).any():
        r.fail('time axis not strictly increasing')
        return r
    if t[-1] < tf:
        r.fail('ends at %r before the timeframe %r' % (t[-1], tf))
    if t[-2] >= tf:
        r.fail('goes on to %r after reaching %r at %r' % (t[-1], tf, t[-2]))
    for q, p in s.parts.items():
        if len(p.res) != n or len(p.res_dm) != n:
            r.fail('%s has %d/%d rows, the time axis %d'
                   % (q, len(p.res), len(p.res_dm), n))
    if d.max() > mx * (1 + eps):
        r.fail('step %g exceeds max_stepsize %g' % (d.max(), mx),
               'max_stepsize')
    ratio = d[1:] / d[:-1]
    if len(ratio) and ratio.max() > fac * (1 + 1e-6):
        r.fail('step grows by %g, more than max_factor %g'
               % (ratio.max(), fac), 'max_factor')
    if len(s.time_step_vec) != n or not np.allclose(
            s.time_step_vec[:-1], d, rtol=0, atol=1e-12):
        r.fail('time_step_vec does not match the time axis')
    # stability: no cell is flushed more than once per accepted step
    limit = np.full(n - 1, np.inf)
    for q, p in s.parts.items():
        v = getattr(p, 'V_cell', None)
        if v is None or np.ndim(p.res) != 2 or type(p).__name__ in (
                'HexNum', 'HeatExchanger', 'Connector3w', 'MixingValve',
                'Pump'):
            continue
        v = np.atleast_1d(v).min() * 1000.0
        fl = np.abs(p.res_dm[1:].reshape(n - 1, -1)).max(axis=1)
        bad = fl * d > v * (1 + eps)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            r.fail('step %d of %g s moves %g kg through cells of %s holding '
                   '%g kg' % (i + 1, d[i], fl[i] * d[i], q, v), 'cfl')
        with np.errstate(divide='ignore'):
            limit = np.minimum(limit, np.where(fl > 0, v / fl, np.inf))
    # below min_stepsize only where stability demands it (limit * .9 * .95
    # is what the solver aims at; the growth after it may be slow)
    low = d < mn * (1 - eps)
    if low.any() and 'hex' != case['m']:
        for i in np.flatnonzero(low):
            if limit[i] * 1.0 > 1.5 * mn and limit[:i + 1].min() > 1.5 * mn:
                r.fail('step %d of %g s is below min_stepsize %g although '
                       'stability allows %g' % (i + 1, d[i], mn, limit[i]),
                       'min_stepsize')
                break
    # an accepted step is only followed by a smaller one after a rejection
    fails = getattr(s, '_failed_steps', None)
    if isinstance(fails, np.ndarray) and len(fails) == n:
        for i in range(1, n - 1):
            if d[i] < d[i - 1] * (1 - 1e-6) and fails[i + 1] == 0:
                r.fail('step %d shrinks from %g to %g without a rejected '
                       'try' % (i + 1, d[i - 1], d[i]), 'shrink')
                break
    for i in range(n - 1):
        r.see(case['m'], round(d[i], 9), round(t[i], 9))
    r.outcome = 'limited' if (d > mx * (1 - eps)).any() else 'free'
    if low.any():
        r.outcome = 'stability below min'
    r.validated = 1
    return r
