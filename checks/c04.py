"""C04: repeatability, reset, independence of environments."""
import itertools

import numpy as np

from mc.core import Result
from mc.models import P, bang, chain, ctrl, library, net as mknet, pid, saw
from mc.nets import build, quiet

META = dict(
    title='A simulation is repeatable: again, after a reset, next to others',
    statement=(
        'The results of a run (times, temperatures, mass flows, heat and '
        'power) depend only on the model and its settings: building the same '
        'model again, resetting an environment that has been run '
        '(initialize_sim(build_simenv=False, reset_simenv=True)) and running '
        'it again, any number of times, and running other environments '
        'before or in between all give the same results. A reset therefore '
        'restores temperatures, flows, actuators, controllers (integral, '
        'filter, dead time), the state of a CHP plant and the position in '
        'all time series.'),
    quantifier=dict(over=['histories', 'configurations'], text=(
        'all sequences of build, run, reset and other environments up to '
        'the depth, for models with every part and controller')),
    why_tests_cant=(
        'no test runs an environment twice; state left over by a run is '
        'spread over parts, controllers and time series and only shows in '
        'the next run'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/parts/controllers.py',
               'multisim/parts/pipe.py', 'multisim/parts/chp_plant.py'],
        mechanism=[
            dict(name='reset', where='simenv.py:_reset_simenv'),
            dict(name='part and controller reset',
                 where='_reset_to_init_cond of parts and controllers'),
        ],
        state=[dict(name='all arrays and counters of a run',
                    meaning='must not outlive it', where='SimEnv, parts, '
                    'controllers')],
        observe_at=['time_vec', 'res', 'res_dm', 'res_dQ', 'res_Pel',
                    'res_Pgas'],
        hook_needed=None),
    technique='exhaustive enumeration of operation sequences on the real '
              'environments, every run compared with a fresh one',
    level_note=('All operation sequences up to length 3 (thorough: 4) over '
                '{reset and run, new environment, other environment, '
                'interleaved run} for 19 models.'),
)
PROPERTY = 'C04'
RULE = ('(model, operation sequence); non-trivial: contains a reset')
ASSUMPTIONS = ['results are kept in memory (no disk saving)']
BOUNDS = 'operation sequences up to length 3 / 4'


def models():
    m = library()
    pump = dict(start_massflow=.3, lower_limit=0., upper_limit=.8,
                maximum_flow=2.)

    def c(k, x, tf=4.):
        m[k] = (mknet([['pump', 'p', dict(pump)], ['pipe', 'q', {}]],
                      chain('p', 'q'),
                      {'BC_a': saw(20., 60., 2, 30), 'BC_z': 20.}, [x]),
                tf, {})
    g = dict(terms='PID', Kp=.03, Ki=.02, Kd=.1, anti_windup='auto_2')
    c('pid', pid('c', 'p', 'q', 0, 35., filter_derivative=False, **g))
    c('filt', pid('c', 'p', 'q', 0, 35., filter_derivative=True,
                  cutoff_freq=.2, **g))
    c('disc', pid('c', 'p', 'q', 0, 35., filter_derivative=False,
                  **dict(g, time_domain='discrete')))
    c('dead', pid('c', 'p', 'q', 0, 35., filter_derivative=False,
                  deadtime=.8, **g))
    c('ramp', pid('c', 'p', 'q', 0, 35., slope=[-.1, .1],
                  filter_derivative=False, **g))
    c('bang', bang('c', 'p', 'q', 0, 35., slope=[-.2, .2], deadtime=.3))
    c('two', ['two', 'c', ctrl('p', 'q', 1, 50., on_sensor_part='q',
                               on_sensor_port=0, activation_value=30.,
                               activation_sign='lower',
                               deactivation_sign='greater')])
    m['series'] = (mknet(
        [['pump', 'p', dict(start_massflow=.05, ctrl_required=False,
                            time_series=saw(.05, .2, 1, 30)['series'])],
         ['valve', 'v', dict(start_portA_opening=.3, ctrl_required=False,
                             lower_limit=0., upper_limit=1.,
                             time_series=saw(.3, .8, 2, 30)['series'])],
         ['pipe', 'q', {'T_init': [50., 30., 20.]}]],
        [[['BC', 'BC_a'], ['v', 'A']], [['BC', 'BC_b'], ['v', 'B']],
         [['v', 'AB'], ['p', 'in']], [['p', 'out'], ['q', 'in']],
         [['q', 'out'], ['BC', 'BC_z']]],
        {'BC_a': saw(20., 60., 2, 30), 'BC_b': 30., 'BC_z': 20.}), 5., {})
    m['raw'] = (mknet([['rawpump', 'r', dict(
        start_massflow=.3, lower_limit=0., upper_limit=.8)],
        ['pipe', 'q', {}], ['pipe', 'o', {}]], chain('q', 'r', 'o'),
        {'BC_a': saw(20., 60., 2, 30), 'BC_z': 20.},
        [pid('c', 'r', 'q', 1, 35., Kp=.01, terms='PI', Ki=.01,
             anti_windup='auto')]), 4., {})
    m['tiny'] = (mknet([P('p', .1), ['pipe', 'q', {}]], chain('p', 'q'),
                       {'BC_a': 50., 'BC_z': 20.}), .3,
                 dict(max_stepsize=.1))
    return m


OTHER = {'pipe': 'heated'}
OPS = 'RNOI'


def cases(tier):
    out = []
    depth = 4 if tier == 'thorough' else 3
    for n in models():
        for k in range(1, depth + 1):
            for w in itertools.product(OPS, repeat=k):
                if tier != 'thorough' and k == 3 and 'R' not in w:
                    continue
                out.append(dict(m=n, w=''.join(w)))
    return out


def snap(s):
    o = {'time': np.array(s.time_vec)}
    for n, p in s.parts.items():
        for k in ('res', 'res_dm', 'res_dQ', 'res_Pel', 'res_Pgas'):
            if hasattr(p, k):
                o[n + '.' + k] = np.array(getattr(p, k))
    return o


FRESH = {}


def fresh(name):
    net, tf, kw = MODELS[name]
    with quiet():
        s = build(net, tf, **kw)
        s.initialize_sim()
        s.start_sim()
    return s


MODELS = models()


def warm():
    for n in MODELS:
        FRESH[n] = snap(fresh(n))


def compare(r, want, s, what):
    got = snap(s)
    r.transitions += len(got['time']) - 1
    r.validated += 1
    r.see(what[:40], *[got[k] for k in sorted(got)][:3])
    for k in want:
        if got[k].shape != want[k].shape:
            r.fail('%s: %s has shape %s instead of %s' % (
                what, k, got[k].shape, want[k].shape), 'shape')
            return
        if not np.allclose(got[k], want[k], rtol=1e-9, atol=1e-9,
                           equal_nan=True):
            r.fail('%s: %s differs by up to %g' % (
                what, k, np.abs(got[k] - want[k]).max()), 'values')
            return


def run(case):
    r = Result()
    n = case['m']
    other = OTHER.get(n, 'pipe')
    if n not in FRESH:                    # replay of a single case
        warm()
    s = fresh(n)
    compare(r, FRESH[n], s, 'first run')
    for i, op in enumerate(case['w']):
        what = 'operation %d (%s) of %s' % (i, op, case['w'])
        if op == 'R':
            with quiet():
                s.initialize_sim(build_simenv=False, reset_simenv=True)
                s.start_sim()
            compare(r, FRESH[n], s, what)
        elif op == 'N':
            s = fresh(n)
            compare(r, FRESH[n], s, what)
        elif op == 'O':
            compare(r, FRESH[other], fresh(other), what)
        else:      # both built before either is run, and reset in between
            a, b = MODELS[n], MODELS[other]
            with quiet():
                x = build(a[0], a[1], **a[2])
                y = build(b[0], b[1], **b[2])
                x.initialize_sim()
                y.initialize_sim()
                y.start_sim()
                x.start_sim()
            compare(r, FRESH[n], x, what)
            compare(r, FRESH[other], y, what)
            s = x
        if r.viol:
            break
    r.nontrivial = 'R' in case['w']
    r.outcome = n
    return r
