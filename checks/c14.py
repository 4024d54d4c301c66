"""C14: time series as boundary conditions."""
import itertools

import numpy as np

from mc.core import Result
from mc.models import P, bc, chain, links, net as mknet, pid
from mc.nets import build, quiet, series

META = dict(
    title='Time series boundary conditions are applied at the right time',
    statement=(
        'The value that a time series gives to an open port, a pump, a '
        'three-way valve or a controller setpoint during a step is the '
        'series linearly interpolated at the time at which the step starts '
        '(its first value in the first step of an open port; setpoints: '
        'the start of the step after which the controller acts), however '
        'step sizes and series spacing relate, as long as steps are not '
        'longer than the spacing. After a longer step the value is the time '
        'weighted mean of the points that were passed over (from the one '
        'nearest to the start of that step on) and of the interpolated '
        'value at its end. '
        'All series of a run stay in step with each other. A series that '
        'covers the timeframe suffices even if the last step ends after it, '
        'and a series with a constant value is the same as the constant.'),
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text=(
        'all series values, spacings, step size sequences and timeframes')),
    why_tests_cant=(
        'adaptive steps fall anywhere between the points of the series; the '
        'index bookkeeping accumulates over the whole run'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/parts/pump.py',
               'multisim/parts/pipe_with_valve.py'],
        mechanism=[
            dict(name='update', where='simenv.py:_update_dyn_BC'),
            dict(name='assignment', where='simenv.py:assign_boundary_cond'),
            dict(name='first value',
                 where='simenv.py:_initialize_dynamic_BC'),
        ],
        state=[dict(name='series index', meaning='position of the last step',
                    where='SimEnv.__last_step_t_idx')],
        observe_at=['temperatures of a massless junction', 'res_dm',
                    'controlled flow'],
        hook_needed=None),
    technique='exhaustive enumeration of series words, spacings and step '
              'limits on the real code, every step compared with direct '
              'interpolation',
    level_note=('All words of length 4 (thorough: 6) over two levels, five '
                'spacings, six step limits, timeframes inside and up to the '
                'end of the series; every step of every run.'),
)
PROPERTY = 'C14'
RULE = ('(word, spacing, step limit, timeframe, targets); non-trivial: the '
        'word is not constant')
ASSUMPTIONS = ['series are evenly spaced (the code asks for it)']
BOUNDS = 'series of 8 points, spacing 0.25..3 s'


def cases(tier):
    out = []
    big = tier == 'thorough'
    L = 6 if big else 4
    sp = [.25, .5, 1., 2.] + ([3.] if big else [])
    for w in itertools.product((0, 1), repeat=L):
        for d in sp:
            for st in (.25, .3, 1., 2.6, None) + ((.77,) if big else ()):
                for end in (.55, .999, 1.12):
                    for tg in (0, 1):
                        if not big and end == .55 and tg:
                            continue
                        out.append(dict(w=w, d=d, st=st, end=end, tg=tg))
    for c in ('port', 'pump', 'raw', 'valve', 'sp', 'amb'):
        for v in (0, 1):
            out.append(dict(const=c, v=v))
    # points much further apart than the steps, and very many steps
    for w in ((0, 1, 1, 0), (1, 0, 0, 1)):
        out.append(dict(w=w, d=1. if not big else 30., st=.01 if not big
                        else .05, end=.999, tg=0))
    return out


N = 8


def word(w, lo, hi, flip=False):
    full = (list(w) + [1, 0, 0, 1, 1])[:N]
    return [hi if bool(x) != flip else lo for x in full]


def pts(vals, d):
    return [[i * d, v] for i, v in enumerate(vals)]


def model(case):
    d = case['d']
    ser = {'T': word(case['w'], 30., 50.), 'f': word(case['w'], .05, .12, True)}
    pump = ['pump', 'p', dict(start_massflow=.05, ctrl_required=False,
                              time_series=pts(ser['f'], d))]
    parts = [pump, ['conn3', 'c', {}]]
    lk = [(bc('a'), ['c', 'A']), (['c', 'B'], ['p', 'in']),
          (['p', 'out'], bc('z'))]
    temps = {'BC_a': {'series': pts(ser['T'], d)}, 'BC_z': 20.}
    ctrls = []
    if case['tg'] == 0:
        parts.append(P('r', .02))
        lk += [(['c', 'C'], ['r', 'in']), (['r', 'out'], bc('y'))]
        ser['S'] = word(case['w'], 40., 48.)
        parts.append(['pump', 'k', dict(start_massflow=.01, lower_limit=0.,
                                        upper_limit=1., maximum_flow=1.)])
        lk += [(bc('e'), ['k', 'in']), (['k', 'out'], bc('x'))]
        temps.update(BC_y=20., BC_e=20., BC_x=20.)
        ctrls.append(pid('kc', 'k', 'k', 0, 40., Kp=.003))
    else:
        ser['o'] = word(case['w'], .2, .7)
        ser['g'] = word(case['w'], .03, .1)
        parts.append(['rawpump', 'r', dict(
            start_massflow=.03, no_control=True,
            time_series=pts(ser['g'], d))])
        parts += [['pipe', 'i', {}], ['valve', 'v', dict(
            start_portA_opening=.2, lower_limit=0., upper_limit=1.,
            ctrl_required=False, time_series=pts(ser['o'], d))],
            ['pipe', 'qa', {}], ['pipe', 'qb', {}]]
        lk += [(['c', 'C'], bc('y')), (bc('e'), ['i', 'in']),
               (['i', 'out'], ['r', 'in']), (['r', 'out'], ['v', 'AB']),
               (['v', 'A'], ['qa', 'in']), (['v', 'B'], ['qb', 'in']),
               (['qa', 'out'], bc('x')), (['qb', 'out'], bc('w'))]
        parts.remove(parts[1])
        lk = lk[2:]
        lk = [(bc('a'), ['p', 'in'])] + [x for x in lk
                                         if x[0] != ['c', 'C']]
        temps.update(BC_e=20., BC_x=20., BC_w=20.)
    return mknet(parts, links(*lk), temps, ctrls), ser


def execute(net, tf, st, sp=None, extra=None):
    kw = {} if st is None else dict(max_stepsize=st)
    with quiet():
        s = build(net, tf, **kw)
        s.initialize_sim()
        if sp is not None:
            s.assign_boundary_cond(series(sp), control='kc')
        if extra:
            extra(s)
        s.start_sim()
    return s


def warm():
    for tg in (0, 1):
        run(dict(w=(0, 1, 0, 1), d=.5, st=.3, end=.3, tg=tg))


def expect(vals, t, d, k):
    """(lo, hi) of the value in step k (used from t[k-1] on)."""
    v = np.asarray(vals, float)
    x1 = t[k - 1] / d
    x0 = t[k - 2] / d if k > 1 else 0.
    last = len(v) - 1
    ip = np.interp(min(x1, last), np.arange(len(v)), v)
    lo = hi = ip
    n = x1 - x0
    if n > 1 + 1e-9:
        c = []
        for e in (-1e-7, 1e-7):
            for i in {int(np.round(x0 - 1e-7)), int(np.round(x0 + 1e-7))}:
                j = max(0, int(np.floor(x1 + e)))
                lev = max(0., x1 - j)
                m = v[min(i, last):j + 1].mean()
                c.append((m * (n - lev) + ip * lev) / n)
        lo, hi = min(c), max(c)
    return lo, hi


def flow(s, n):
    return np.abs(s.parts[n].res_dm.reshape(len(s.time_vec), -1)[:, 0])


def constant(case):
    r = Result()
    v = case['v']
    k = case['const']
    L = [[i, 0.] for i in range(12)]

    def const(x):
        return [[i, x] for i in range(12)]
    x = {'port': (40., 55.), 'pump': (.05, .1), 'raw': (.05, .1),
         'valve': (.3, .6), 'sp': (40., 47.), 'amb': (5., 60.)}[k][v]

    def mk(ser):
        parts = [P('p', .06), ['pipe', 'q', dict(
            insulation_thickness=1e-3, insulation_lambda=.5)]]
        temps = {'BC_a': 45., 'BC_z': 20.}
        lk = chain('p', 'q')
        ctrls = []
        if k == 'port':
            temps['BC_a'] = {'series': const(x)} if ser else x
        elif k == 'pump' and ser:
            parts[0] = ['pump', 'p', dict(
                start_massflow=x, ctrl_required=False, time_series=const(x))]
        elif k == 'pump':
            parts[0] = P('p', x)
        elif k == 'raw':
            parts = [['rawpump', 'r', dict(
                start_massflow=x, no_control=True, time_series=const(x))
                if ser else dict(flow=x)], ['pipe', 'p', {}],
                ['pipe', 'q', {}]]
            lk = chain('p', 'r', 'q')
        elif k == 'valve':
            o = dict(start_portA_opening=x, ctrl_required=False,
                     lower_limit=0., upper_limit=1.)
            o.update(dict(time_series=const(x)) if ser else
                     dict(const_val=x))
            parts.append(['valve', 'v', o])
            lk = links((bc('a'), ['q', 'in']), (['q', 'out'], ['v', 'A']),
                       (bc('b'), ['v', 'B']), (['v', 'AB'], ['p', 'in']),
                       (['p', 'out'], bc('z')))
            temps['BC_b'] = 60.
        elif k == 'sp':
            parts.append(['pump', 'k', dict(
                start_massflow=.01, lower_limit=0., upper_limit=1.,
                maximum_flow=1.)])
            lk = lk + links((bc('e'), ['k', 'in']), (['k', 'out'], bc('x')))
            temps.update(BC_e=20., BC_x=20.)
            ctrls.append(pid('kc', 'k', 'q', 0, x, Kp=.003))
        elif k == 'amb':
            parts[1][2]['T_amb'] = x
        return mknet(parts, lk, temps, ctrls)
    out = []
    for ser in (0, 1):
        ex = None
        if ser and k == 'amb':
            def ex(s):
                s.assign_boundary_cond(series(const(x)), part='q',
                                       variable_name='_T_amb',
                                       array_index=0)
        s = execute(mk(ser), 5., .4,
                    const(x) if ser and k == 'sp' else None, ex)
        out.append(s)
    a, b = out
    r.transitions += len(a.time_vec) + len(b.time_vec)
    r.validated += 2
    if len(a.time_vec) != len(b.time_vec) or not np.allclose(
            a.time_vec, b.time_vec, rtol=1e-12):
        r.fail('a constant series gives other steps than the constant',
               'const-steps')
        return r
    for n in a.parts:
        for w in ('res', 'res_dm'):
            x1, x2 = (getattr(q.parts[n], w) for q in out)
            r.see(x1)
            if not np.allclose(x1, x2, rtol=1e-9, atol=1e-9):
                r.fail('%s: %s of %s differs between constant and series '
                       'by %g' % (k, w, n, np.abs(x1 - x2).max()), 'const')
    r.outcome = 'const'
    return r


def run(case):
    if 'const' in case:
        return constant(case)
    r = Result()
    net, ser = model(case)
    d = case['d']
    # end: in units of the last point of the series (> 1 up to one spacing)
    tf = (N - 1) * d * case['end']
    st = case['st']
    st = None if st is None else st * d
    sp = pts(ser['S'], d) if 'S' in ser else None
    s = execute(net, tf, st, sp)
    t = s.time_vec
    n = len(t)
    got = {'f': (flow(s, 'p'), 2)}
    if 'S' in ser:
        got['T'] = (s.parts['c'].res[:, 1], 1)
    else:
        got['g'] = (flow(s, 'i'), 2)
        got['o'] = (flow(s, 'qa') / np.maximum(flow(s, 'i'), 1e-30), 2)
    for key, (rows, first) in got.items():
        for k in range(first, n):
            lo, hi = expect(ser[key], t, d, k)
            if key == 'o':
                pass
            tol = 1e-7 * max(1e-3, abs(hi)) + 1e-9
            r.transitions += 1
            r.see(key, round(rows[k], 6), round(t[k] / d, 6))
            if not lo - tol <= rows[k] <= hi + tol:
                r.fail('series %s in step %d (from t=%.6g, spacing %g): '
                       '%.10g instead of %.10g..%.10g' % (
                           key, k, t[k - 1], d, rows[k], lo, hi), key)
                return r
    if 'S' in ser:
        fl = flow(s, 'k')
        T = s.parts['k'].res[:, 0]
        for k in range(3, n):
            lo, hi = expect(ser['S'], t, d, k - 1)
            a = min(1., max(0., .003 * (lo - T[k - 1])))
            b = min(1., max(0., .003 * (hi - T[k - 1])))
            r.transitions += 1
            if not a - 1e-7 <= fl[k] <= b + 1e-7:
                r.fail('setpoint series: controlled flow in step %d is '
                       '%.10g instead of %.10g..%.10g' % (k, fl[k], a, b),
                       'S')
                return r
    r.validated += 1
    r.nontrivial = len(set(case['w'])) > 1
    r.outcome = 'long steps' if n > 2 and np.diff(t).max() > d else 'ok'
    return r
