"""C18: operating states of the CHP plant."""
import itertools

import numpy as np

from mc.core import Result
from mc.models import P, bang, chain, pid
from mc.nets import run as run_net

META = dict(
    title='A CHP plant obeys its modulation range, timers, ramps and limits',
    statement=(
        'A CHP plant is either off or inside its modulation range. It '
        'follows the requested modulation, except that it stays off for the '
        'minimum off time after a shutdown and while its inlet is above '
        '75 °C or any cell above 110 °C; stays on at the lower modulation '
        'for the minimum on time after a start; changes its modulation '
        'while running by no more than the ramp allows; and shuts down at '
        'once when any cell is above 110 °C and after more than 120 s of '
        'inlet temperatures above 75 °C. Time is simulated time: trial '
        'steps which are rejected do not count. Electric power, gas power '
        'and heat are zero when off (heat decays after a shutdown), follow '
        'the startup curves while starting (shortened only by heat that is '
        'really left) and the rated powers when running; the part loads '
        'match the plant\'s curves.'),
    quantifier=dict(over=['histories', 'schedules', 'configurations'], text=(
        'all histories of requests and inlet temperatures, all step '
        'sequences, all settings')),
    why_tests_cant='no test runs a CHP plant, and every rule depends on the '
                   'history of requests, temperatures and steps',
    anchors=dict(
        files=['multisim/parts/chp_plant.py', 'multisim/precomp_funs.py'],
        mechanism=[
            dict(name='state machine', where='chp_plant.py:get_diff'),
            dict(name='startup and shutdown curves',
                 where='precomp_funs.py:chp_startup_*, chp_shutdown_th'),
            dict(name='part load', where='precomp_funs.py:'
                 'chp_thermal_power, chp_gas_power'),
        ],
        state=[dict(name='modulation', meaning='0 or the modulation per '
                    'step', where='_chp_state'),
               dict(name='powers', meaning='electric, gas, heat',
                    where='res_Pel, res_Pgas, res_dQ')],
        observe_at=['_chp_state', 'res_Pel', 'res_Pgas', 'res_dQ', 'res'],
        hook_needed=None),
    technique='exhaustive enumeration of request and temperature words x '
              'settings on the real code, refined step by step against a '
              'reference automaton',
    level_note=('All words of 4 requests over 4 levels x timers x ramps; '
                'temperature words; on/off words over whole startups; words '
                'with rejected steps.'),
)
PROPERTY = 'C18'
RULE = ('request word x temperature word x timers x ramp; the reference '
        'automaton is driven by the recorded times and temperatures')
ASSUMPTIONS = ['a request series is interpolated linearly and acts on the '
               'step after the row (C14)']
BOUNDS = 'words of 4 letters, up to 4500 s'
PEL = 2000.
KNOWN_CONST = 'const-request'


def cases(tier):
    big = tier == 'thorough'
    out = []
    lv = (0., .5, .8, 1.) if not big else (0., .3, .5, .8, 1.)
    for w in itertools.product(lv, repeat=4 if not big else 5):
        for on, off, sl in ((6.3, 6.3, .05), (25.7, 6.3, .05),
                            (6.3, 25.7, .011), (14.9, 14.9, 1.)):
            if big or (sum(int(10 * x) for x in w) + int(on)) % 2 or \
                    len(set(w)) > 2:
                out.append(dict(w=w, d=10., on=on, off=off, sl=sl))
    # modulation ranges and requests at their ends
    for rng in ((.3, .9), (.5, 1.), (.7, .8)):
        for w in itertools.product((.2, .3, .65, .7, .85, 1.), repeat=2):
            out.append(dict(w=w, d=10., on=3.3, off=3.3, sl=.2, rng=rng))
    # words of inlet temperatures, constant or alternating requests
    for tw in itertools.product((60., 76., 112.), repeat=3):
        for req in ((1., 1., 1.), (1., 0., 1.), (0., 1., 1.)):
            for d in (40., 90.):
                out.append(dict(w=req, tw=tw, d=d, on=60.3, off=20.3,
                                sl=.05, step=2.))
    for hold in (100., 115., 125., 140., 260.):
        for on in (3.3, 400.):
            for gap in (0., 15.):
                out.append(dict(w=(1.,) * 6, tw2=(hold, gap), d=100., on=on,
                                off=33.3, sl=.05, step=2.))
    for init in (60., 74.9, 75.5, 109.9, 110.5):
        for start in (False, True):
            for w in itertools.product((0., .6, 1.), repeat=2):
                out.append(dict(w=w, d=10., on=3.3, off=3.3, sl=.05,
                                init=init, start=start, T=init))
    # hot cells behind a cold inlet
    for init in (100., 109., 113.):
        for start in (False, True):
            for w in itertools.product((0., .6, 1.), repeat=2):
                for flow in (.02, .1):
                    out.append(dict(w=w, d=10., on=33.3, off=3.3, sl=.05,
                                    init=init, start=start, T=50.,
                                    flow=flow))
    # plant on at the start
    for m in (.4, .5, .9):
        for w in itertools.product((0., .5, 1.), repeat=2):
            for on, off in ((3.3, 30.), (30., 3.3)):
                out.append(dict(w=w, d=10., on=on, off=off, sl=.05, mod=m,
                                start=True))
    # whole startups and shutdowns: (on, off) durations
    for a, b, c in itertools.product((150., 700., 1900.), (60., 500., 1000.),
                                     (300., 1900.)):
        for lvl in (1., .6):
            out.append(dict(seq=((a, lvl), (b, 0.), (c, lvl), (200., 0.)),
                            on=30.3, off=30.3, sl=.05, step=5.))
    out.append(dict(seq=((300., 1.), (200., 0.), (100., 1.), (1000., 0.),
                         (400., 1.)), on=30.3, off=30.3, sl=.05, step=5.))
    # sudden temperature changes: rejected steps at every state change
    for w in itertools.product((0., .6, 1.), repeat=3):
        for ph in (0., .3, .6):
            for on, off in ((7.3, 7.3), (11.1, 3.3)):
                out.append(dict(w=w, d=10., on=on, off=off, sl=.05,
                                saw=ph, flow=.4, step=3.))
    # a controller requests
    for ctl in ('bang', 'pid'):
        for on, off in ((3.3, 4.3), (12.3, 9.3)):
            out.append(dict(ctl=ctl, on=on, off=off, sl=.05, d=10.,
                            w=(0.,) * 5))
    # constant request, plant blocked at the start
    out.append(dict(const=1., w=(1., 1.), d=20., on=3.3, off=3.3, sl=.05,
                    tw=(80., 40.), step=1., T=80.))
    return out


def points(case):
    """Request as a list of points (time, value): steps within 1 s."""
    if 'seq' in case:
        seq = case['seq']
    else:
        seq = [(case['d'], v) for v in case['w']]
    return stairs(seq, case)


def stairs(seq, case):
    sp = max(1., case.get('step', 1.))      # steps never skip points
    end = sum(d for d, _ in case['seq']) if 'seq' in case else \
        case['d'] * len(case['w'])
    edge = np.cumsum([d for d, _ in seq])
    pts = [[i * sp, seq[min(int(np.searchsorted(edge, i * sp, 'right')),
                            len(seq) - 1)][1]]
           for i in range(int(end / sp) + 6)]
    return pts, end


def net_of(case):
    pts, tf = points(case)
    rng = case.get('rng', (.5, 1.))
    T = case.get('T', 60. if 'tw' in case or 'tw2' in case else 50.)
    p = dict(length=8., grid_points=4, heat_spread='all',
             power_electrical=PEL, modulation_range=list(rng),
             lower_limit=0., upper_limit=1., min_on_time=case['on'],
             min_off_time=case['off'], max_slope_el=case['sl'],
             connect_fluegas_hex=False,
             T_init=case.get('init', T))
    if 'start' in case:
        p['chp_on_at_start'] = case['start']
    p['start_modulation'] = case.get('mod', pts[0][1])
    ctrls = []
    if 'ctl' in case:
        if case['ctl'] == 'bang':
            ctrls.append(bang('bb', 'c', 'p', 'in', 50.))
        else:
            ctrls.append(pid('bb', 'c', 'p', 'in', 50., Kp=.1))
    elif 'const' in case:
        p.update(ctrl_required=False, const_val=case['const'])
    else:
        p.update(ctrl_required=False, time_series=pts)
    if 'tw' in case:
        b = {'series': stairs([(case['d'], v) for v in case['tw']],
                             case)[0]}
    elif 'tw2' in case:
        h, g = case['tw2']
        b = {'series': stairs([(20., 60.), (h, 80.), (g, 60.), (560. - h - g,
                                                              80.),
                               (40., 60.)], case)[0]}
    elif 'saw' in case:
        sp = case['step']
        b = {'series': [[i * sp, 20. if int(i + 5 * case['saw']) // 2 % 2
                         else 70.] for i in range(int(tf / sp) + 6)]}
    elif 'ctl' in case:
        b = {'series': stairs([(7., 40.), (9., 60.), (11., 45.), (30., 56.)
                               ], case)[0]}
    else:
        b = T
    return dict(parts=[P('p', case.get('flow', .1), T_init=T),
                       ['chp', 'c', p]],
                links=chain('p', 'c'), bcs={'BC_a': b, 'BC_z': 20.},
                ctrls=ctrls), tf, pts


def warm():
    run(dict(w=(1., 0.), d=4., on=3.3, off=3.3, sl=.05))


def curve(x, s, b0, k):
    return s - (s - b0) * k ** x


def th_curve(m):
    return curve(m, .60275, .972917, 3.5990506789130166)


def gas_curve(m):
    return curve(m, -1.17, .995828402366862, 1.9507547298681704)


def start_th(t):
    b0, k = 4.3715647889609857e-4, 8.61423130773867e-3
    return 1 / (1 + (1 / b0 - 1) * np.exp(-k * t))


def start_el(t):
    return curve(t, 4.6611096613889975, -3.6832212021813398e-09,
                 .9997484824090741)


def stop_th(t):
    return -1.2532286835042036e-09 * (t - 927.5198588530006) ** 3


def clip(x):
    return min(1., max(0., x))


def automaton(case, t, T, req):
    """Reference: rows of (modulation, Pel, Pgas, heat)."""
    lo, hi = case.get('rng', (.5, 1.))
    on, off, sl = case['on'], case['off'], case['sl']
    warm0 = case.get('start', False)
    s = case.get('mod', req[1]) if warm0 else 0.
    t_off = -1e9
    t_on = -1e9
    over = 0.
    fth, fel, fgas, done = (1., 1., 1., True) if warm0 else (0., 0., 0., False)
    cool = None                 # (time, heat, factor) of the last shutdown
    head = 0.
    last = 0.
    rows = [(s, 0., 0., 0.)]
    for k in range(1, len(t)):
        dt = t[k] - t[k - 1]
        u = min(req[k], hi)
        want = req[k] >= lo
        hot = T[k - 1][0] > 75. or T[k - 1].max() > 110.
        new = 0.
        if s and want:
            new = min(max(u, s - sl * dt), s + sl * dt)
        elif s:
            new = lo if t[k] - t_on < on else 0.
        elif want and t[k] - t_off >= off and not hot:
            new = u
        if new and hot and (over > 120. or T[k - 1].max() > 110.):
            new = 0.
        elif new and hot:
            over += dt
        else:
            over = 0.
        if new and not s:
            t_on, done, head = t[k], False, 0.
            if cool is not None:
                f = stop_th(t[k] - cool[0] - dt) * cool[2]
                f0 = stop_th(t[k] - cool[0] - dt)
                if f0 > .01:
                    sec = np.arange(1, 1703)
                    head = float(np.argmin(np.abs(start_th(sec) - f)))
            cool = None
        if s and not new:
            t_off = t[k]
            cool = (t[k], last, fth)
        s = new
        if s and not done:
            x = t[k] - t_on + head
            fth, fel = clip(start_th(x)), clip(start_el(x))
            fgas = clip(start_el(x) / .32733 + start_th(x) / .6334)
            if fth > .999:
                fth = fel = fgas = 1.
                done = True
        if s:
            q = th_curve(s) / th_curve(1.) * PEL / .516796 * fth
        elif cool is not None and stop_th(t[k] - cool[0]) >= .01:
            q = cool[1] * stop_th(t[k] - cool[0])
        else:
            q = 0.
        if s:
            last = q
        rows.append((s, s * PEL * fel,
                     gas_curve(s) / gas_curve(1.) * PEL / .32733 * fgas
                     if s else 0., q))
    return np.array(rows)


def run(case):
    r = Result()
    net, tf, pts = net_of(case)
    kw = dict(max_stepsize=case.get('step', 1.))
    s = run_net(net, tf, **kw)
    c = s.parts['c']
    t = np.array(s.time_vec)
    T = np.array(c.res)
    got = np.c_[np.ravel(c._chp_state), np.ravel(c.res_Pel),
                np.ravel(c.res_Pgas), np.ravel(c.res_dQ)]
    r.transitions += len(t) - 1
    x = np.array(pts, dtype=float)
    if 'ctl' in case:
        return monitor(r, case, t, T, got)
    if 'const' in case:
        req = np.full(len(t), case['const'])
    else:
        req = np.r_[0., np.interp(t[:-1], x[:, 0], x[:, 1])]
        req[1] = case.get('mod', x[0, 1])
    exp = automaton(case, t, T, req)
    r.validated += 1
    fails = np.array(s._failed_steps)
    changes = np.flatnonzero((got[1:, 0] > 0) != (got[:-1, 0] > 0)) + 1
    r.see(tuple(np.round(got[:, 0], 9)), len(changes))
    bad = np.abs(got[:, 0] - exp[:, 0]) > 1e-6
    if bad.any():
        k = int(np.argmax(bad))
        msg = ('row %d (t=%.4f, step %.4f, %d rejected): modulation %.6g, '
               'previous %.6g, requested %.6g, inlet %.4g, max %.4g; '
               'reference %.6g' % (
                   k, t[k], t[k] - t[k - 1], fails[min(k, len(fails) - 1)]
                   if fails.size else -1, got[k, 0], got[k - 1, 0], req[k],
                   T[k - 1][0], T[k - 1].max(), exp[k, 0]))
        r.fail(msg, KNOWN_CONST if 'const' in case else 'modulation')
        return r
    for j, n in ((1, 'electric power'), (2, 'gas power'), (3, 'heat')):
        tol = 2e-3 * np.abs(exp[:, j]) + 2e-3 * PEL * (
            1 if 'seq' in case else .1)
        bad = np.abs(got[:, j] - exp[:, j]) > tol
        bad[0] = False
        if bad.any():
            k = int(np.argmax(bad))
            r.fail('row %d (t=%.4f): %s %.6g W, reference %.6g W at '
                   'modulation %.6g' % (k, t[k], n, got[k, j], exp[k, j],
                                        got[k, 0]), n)
            return r
    r.outcome = '%d changes%s' % (
        min(len(changes), 4), ', rejected steps at a change'
        if fails.size and any(fails[k] for k in changes
                              if k < len(fails)) else '')
    return r


def monitor(r, case, t, T, got):
    """Invariants that hold for whatever the controller requests."""
    m = got[:, 0]
    lo, hi = .5, 1.
    r.validated += 1
    r.see(tuple(np.round(m, 9)))
    r.outcome = 'controlled, %d on' % (m > 0).any()
    bad = (m != 0) & ((m < lo - 1e-9) | (m > hi + 1e-9))
    if bad.any():
        r.fail('modulation %g outside of the range' % m[bad][0], 'range')
    edge = np.flatnonzero((m[1:] > 0) != (m[:-1] > 0)) + 1
    for a, b in zip(edge, edge[1:]):
        need = case['on'] if m[a] > 0 else case['off']
        if t[b] - t[a] < need - 1e-6:
            r.fail('%s for %.4f s only' % ('on' if m[a] else 'off',
                                           t[b] - t[a]), 'timer')
    run = (m[1:] > lo + 1e-6) & (m[:-1] > 0)
    if (np.abs(np.diff(m)) > case['sl'] * np.diff(t) + 1e-9)[run].any():
        r.fail('ramp exceeded', 'ramp')
    return r
