"""C12: closed-loop control: limits, rates and timing of actuators."""
import itertools

import numpy as np

from mc.core import Result
from mc.ctrlref import REF, clip
from mc.drive import drive, env, plant, words
from mc.models import P, bang, bc, chain, ctrl, links, net as mknet, pid, saw
from mc.nets import run as run_net

META = dict(
    title='Actuators obey controller, rate limit and hardware limits',
    statement=(
        'In every closed-loop run each controller acts exactly once per '
        'completed time step, on the state reached by that step, and what '
        'it demands drives the actuator during the whole next step. The '
        'demanded value changes by no more than the given slope times the '
        'step size (starting from 0), and the actuator receives it clipped '
        'to its own lower and upper limit - for pumps, heated pipes, '
        'three-way valves (whose two openings always add up to 1) and '
        'mixing valves; pumps in part specific mode receive the demand '
        'times their maximum flow. Replaying the recorded temperatures and '
        'step sizes of any run through the control law therefore gives the '
        'recorded flows and heat rates.'),
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text=(
        'all controllers, actuators, limits and slopes, every step of every '
        'closed-loop run; all input words for the rate limiter')),
    why_tests_cant=(
        'the tests contain no controlled network; the guarantee relates '
        'every recorded step to the one before it'),
    anchors=dict(
        files=['multisim/controls.py', 'multisim/simenv.py',
               'multisim/parts/pipe_with_pump.py',
               'multisim/parts/pipe_with_valve.py',
               'multisim/parts/mixingvalve.py', 'multisim/parts/pump.py',
               'multisim/parts/heated_pipe.py'],
        mechanism=[
            dict(name='slope limit', where='controls.py:Controls.ctrl'),
            dict(name='hardware limits', where='controls.py:'
                 '_process_cv_direct and _process_cv of the parts'),
            dict(name='control call per step',
                 where='simenv.py:_update_control'),
        ],
        state=[dict(name='cv', meaning='last demand',
                    where='Controls.cv')],
        observe_at=['res', 'res_dm', 'res_dQ', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of controller/actuator settings run '
              'in closed loop on the real code, every trace replayed through '
              'a reference controller; input words for the rate limiter',
    level_note=('Full product of listed settings for six actuator models '
                '(each run has 10-200 steps), plus all input words of '
                'length 4 for 24 rate limiter settings.'),
)
PROPERTY = 'C12'
RULE = ('closed loop: (actuator model, controller, mode, limits, slope, '
        'step limit); words: (controller, slope); non-trivial: the actuator '
        'moved')
ASSUMPTIONS = ['controllers start with a demand of 0',
               'a rate limited demand may lie outside CV_saturation until '
               'the ramp has reached it']
BOUNDS = 'runs of 6 s (thorough: 14 s), sawtooth inlet temperatures'


def model(case):
    """-> net, name of controller, reader(s) -> actuator rows, (lo, hi)."""
    k = case['k']
    lo, hi = case['lim']
    wave = saw(20., 60., 2, 40)
    if k in ('pump', 'raw'):
        a = dict(start_massflow=.3, lower_limit=lo, upper_limit=hi,
                 maximum_flow=2.)
        parts = [['pump' if k == 'pump' else 'rawpump', 'p', a],
                 ['pipe', 'q', {}], ['pipe', 'o', {}]]
        n = mknet(parts, chain('q', 'p', 'o'), {'BC_a': wave, 'BC_z': 20.})
        act, part, port, sp = 'p', 'q', 1, 35.

        def rows(s):
            return np.abs(s.parts['o'].res_dm.reshape(
                len(s.time_vec), -1)[:, 0])
    elif k == 'heated':
        n = mknet([P('p', .1), ['heated', 'h', dict(
            lower_limit=lo, upper_limit=hi)]], chain('p', 'h'),
            {'BC_a': wave, 'BC_z': 20.})
        act, part, port, sp = 'h', 'h', 'out', 45.

        def rows(s):
            return s.parts['h'].res_dQ.reshape(len(s.time_vec), -1)[:, 0]
    else:
        v = ['valve', 'v', dict(start_portA_opening=.5, lower_limit=lo,
                                upper_limit=hi, ctrl_required=True)] \
            if k == 'valve' else \
            ['mixv', 'v', dict(port_A_init=.5, lower_limit=lo,
                               upper_limit=hi, mix_or_split='mix', free=1)]
        n = mknet([P('p', .1), v, ['pipe', 'qa', {}], ['pipe', 'qb', {}]],
                  links((bc('a'), ['qa', 'in']), (['qa', 'out'], ['v', 'A']),
                        (bc('b'), ['qb', 'in']), (['qb', 'out'], ['v', 'B']),
                        (['v', 'AB'], ['p', 'in']), (['p', 'out'], bc('z'))),
                  {'BC_a': wave, 'BC_b': 25., 'BC_z': 20.})
        act, part, port, sp = 'v', 'p', 0, 35.

        def rows(s):
            a = np.abs(s.parts['qa'].res_dm.reshape(
                len(s.time_vec), -1)[:, 0])
            b = np.abs(s.parts['qb'].res_dm.reshape(
                len(s.time_vec), -1)[:, 0])
            if not np.allclose((a + b)[1:], .1, rtol=1e-12):
                return None
            return a / .1
    return n, (act, part, port, sp), rows


def cases(tier):
    out = []
    big = tier == 'thorough'
    sizes = {'pump': 1., 'raw': 1., 'valve': 1., 'mixv': 1., 'heated': 1e4}
    for k, top in sizes.items():
        lims = [(0., .8 * top), (.1 * top, .5 * top)]
        slopes = [[0, 0], [-.1 * top, .2 * top], [-.6 * top, .05 * top]]
        modes = {'pump': ['direct', 'part_specific'],
                 'raw': ['direct', 'part_specific'],
                 'heated': ['direct']}.get(k, ['part_specific'])
        cs = ['P', 'PI', 'bang', 'two', 'dPID']
        steps = [None, .3] if not big else [None, .1, .3, 1.]
        for lim, sl, md, c, st in itertools.product(
                lims, slopes, modes, cs, steps):
            for inv in (False, True):
                if inv and c in ('bang', 'two'):
                    continue
                for D in (0., .7):
                    if D and c == 'two':
                        continue
                    out.append(dict(k=k, lim=lim, sl=sl, md=md, c=c, st=st,
                                    inv=inv, D=D, top=top,
                                    tf=14. if big else 6.))
    for c in ('P', 'PI', 'bang', 'two', 'dPID', 'dPD'):
        for sl in ([-.1, .2], [-2., .05], [-.04, 30.], [-.2, .2]):
            out.append(dict(w=c, sl=sl))
    return out


def controller(c, act, part, port, sp, top, **k):
    g = .04 * top
    k = dict(k, CV_saturation=[0., float(top)])
    if c == 'bang':
        return bang('c', act, part, port, sp, hysteresis=4., **k)
    if c == 'two':
        return ['two', 'c', ctrl(act, part, port, sp + 8, **dict(
            k, on_sensor_part=part, on_sensor_port=0, activation_value=30.,
            activation_sign='lower', deactivation_sign='greater',
            silence_slope_warning=True))]
    if c[0] == 'd':
        k['time_domain'] = 'discrete'
        c = c[1:]
    t = dict(terms=c, Kp=g, Ki=g / 2, Kd=g / 4, filter_derivative=False)
    if 'I' in c:
        t['anti_windup'] = 'auto_%g' % (.7 * top)
    return pid('c', act, part, port, sp, **dict(t, **k))


def warm():
    run(dict(k='pump', lim=[0., .8], sl=[0, 0], md='direct', c='PI', st=None,
             inv=False, D=.7, top=1., tf=1.))
    run(dict(k='heated', lim=[0., 8.], sl=[0, 0], md='direct', c='PI',
             st=None, inv=False, D=0., top=1., tf=1.))
    for k in ('valve', 'mixv', 'raw'):
        run(dict(k=k, lim=[0., .8], sl=[0, 0], md='part_specific',
                 c='PI', st=None, inv=False, D=0., top=1., tf=1.))


def run(case):
    r = Result()
    if 'w' in case:
        let = [dict(pv=a, dt=b, s=a) for a in (22., 33., 34., 49.)
               for b in (.2, 1.1)]
        drive(r, plant([controller(case['w'], 'p', 'q', 0, 35., 1.,
                                   slope=case['sl'])], hi=.9),
              words(let, 2, 4), hi=.9)
        r.outcome = 'words'
        return r
    net, where, rows = model(case)
    act, part, port, sp = where
    c = controller(case['c'], *where, case['top'], slope=case['sl'],
                   process_CV_mode=case['md'], invert=case['inv'],
                   deadtime=case['D'])
    net['ctrls'] = [c]
    kw = {} if case['st'] is None else dict(max_stepsize=case['st'])
    s = run_net(net, case['tf'], **kw)
    t = s.time_vec
    got = rows(s)
    if got is None:
        r.fail('valve openings do not add up to 1', 'split')
        return r
    T = s.parts[part].res
    idx = port if port != 'out' else -1
    ref = REF[c[0]](c[2])
    lo, hi = case['lim']
    f = 2. if case['md'] == 'part_specific' and case['k'] == 'pump' else 1.
    sp = c[2]['setpoint']
    prev = 0.
    for i in range(1, len(t) - 1):
        dt = t[i] - t[i - 1]
        cv = ref.step(dt, T[i, idx], sp, sensor=T[i, 0])
        want = clip(cv * f, lo, hi)
        r.transitions += 1
        r.see(case['k'], case['c'], round(cv, 7), round(T[i, idx], 6))
        if not abs(got[i + 1] - want) <= 1e-7 * max(1., case['top']):
            r.fail('step %d: the %s is at %.10g, the controller demands '
                   '%.10g (limits %g..%g)' % (i + 1, case['k'], got[i + 1],
                                              cv * f, lo, hi), 'actuator')
            return r
        if not lo - 1e-12 <= got[i + 1] / 1. <= hi + 1e-7 * case['top']:
            r.fail('step %d: %g outside the limits' % (i + 1, got[i + 1]),
                   'limits')
            return r
        if any(case['sl']):
            n, p = case['sl']
            if not n * dt - 1e-9 * case['top'] <= cv - prev <= \
                    p * dt + 1e-9 * case['top']:
                r.fail('step %d: demand moved by %g' % (i, cv - prev),
                       'slope')
                return r
        prev = cv
    r.validated += 1
    r.nontrivial = len(set(np.round(got[1:], 9))) > 1
    r.outcome = case['k']
    return r
