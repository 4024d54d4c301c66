"""C10: the PID control law."""
from mc.core import Result
from mc.drive import drive, env, plant, words
from mc.models import pid

META = dict(
    title='PID controllers follow their documented control law at every step',
    statement=(
        'After every step the output of a PID controller is a function of '
        'the errors (setpoint minus process value) and step sizes seen so '
        'far: continuous controllers give Kp*e + Ki*(sum of e*dt, limited to '
        '+-anti_windup after each step) + Kd*de/dt; discrete ones add '
        'Kp*(e-e1) + Ki*dt*e + Kd/dt*(e-2*e1+e2) to the last output (limited '
        'to +-anti_windup first), or give Kp*e + Kd/dt*(e-e1) without an '
        'I-term; the output starts at 0 and the errors before the start '
        'count as 0. The action is reversed with invert, the derivative is '
        'low pass filtered (first order, cutoff frequency) if asked for, and '
        'the output is clipped to CV_saturation. anti_windup "auto_X" keeps '
        'the I-part within +-X. Coefficients come from Kp/Ki/Kd, the '
        'Ziegler-Nichols table or the tuning mode (P only), times K_mult. '
        'With a reference part the setpoint is its current value plus '
        'ref_SP_diff.'),
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text=(
        'all controller settings (time domain, terms, coefficients, filter, '
        'windup limit, saturation, inversion, tuning rule) and all '
        'sequences of process values and step sizes')),
    why_tests_cant=(
        'the law has memory (integral, last errors, filter): only sequences '
        'of inputs with varying step sizes reveal a wrong update, and the '
        'tests never run a controller'),
    anchors=dict(
        files=['multisim/controls.py', 'multisim/parts/controllers.py'],
        mechanism=[
            dict(name='law', where='controllers.py:PID.run_controller'),
            dict(name='coefficients', where='controllers.py:PID.__init__'),
            dict(name='error history', where='controls.py:Controls.ctrl'),
        ],
        state=[dict(name='integral, previous errors, filtered derivative, cv',
                    meaning='memory of the controller',
                    where='Controls attributes')],
        observe_at=['Controls.cv after each ctrl() call', 'actuator value'],
        hook_needed=None),
    technique='explicit enumeration of input words driven through the real '
              'controller in lockstep with a reference state machine',
    level_note=('All words of length 2 (thorough: 3) over 8 letters (4 '
                'process values x 2 '
                'step sizes) from the initial state and a de Bruijn word '
                'with all words of length 4 (thorough: 5) for every '
                'setting.'),
)
PROPERTY = 'C10'
RULE = ('(controller settings); per setting all input words as stated; '
        'non-trivial: every case')
ASSUMPTIONS = ['the controller is called once per step with the step size '
               '(checked by C12 on closed-loop simulations)']
BOUNDS = 'words of length 2 / 3 from the start, all windows of length 4 / 5'
LET = [dict(pv=a, dt=b) for a in (27., 34., 35.5, 43.) for b in (.25, 1.)]


def cases(tier):
    out = []
    gains = [dict(terms='P', Kp=.05), dict(terms='P', Kp=2.),
             dict(terms='I', Ki=.01), dict(terms='PI', Kp=.05, Ki=.02),
             dict(terms='PD', Kp=.05, Kd=.02),
             dict(terms='PID', Kp=.05, Ki=.02, Kd=.02)]

    def variants(g):
        gs = [g]
        if 'I' in g['terms']:
            gs = [dict(x, anti_windup=a) for x in gs
                  for a in ('auto', 'auto_0.4', 5., .3, float('inf'))]
        if 'D' in g['terms']:
            gs = [dict(x, **f) for x in gs for f in (
                dict(filter_derivative=False),
                dict(filter_derivative=True, cutoff_freq=.2),
                dict(filter_derivative=True, cutoff_freq=2))]
        return gs

    def add(k, **kw):
        out.append(dict(c=k, **kw))

    for td in ('continuous', 'discrete'):
        for g in gains:
            for v in variants(g):
                for inv in (False, True):
                    for sat in ([0., 1.], [-1., 2.5]):
                        add(dict(v, time_domain=td, invert=inv,
                                 CV_saturation=sat))
                add(dict(v, time_domain=td, CV_saturation=[-3., 3.],
                         K_mult=[2., .5, 4]))
                for off in (3, -4.5):
                    add(dict(v, time_domain=td, setpoint=0,
                             reference_part='q', reference_port=1,
                             ref_SP_diff=off, CV_saturation=[-3., 3.]),
                        ref=1)
        zn = dict(loop_tuning='ziegler-nichols', Kp_crit=.2, T_crit=4.,
                  time_domain=td, CV_saturation=[-5., 5.], anti_windup=20.)
        for t in ('P', 'PI', 'PD'):
            add(dict(zn, terms=t, filter_derivative=False))
        for rule in ('classic', 'pessen-int', 'some-os', 'no-os'):
            for km in ({}, dict(K_mult=[1, 2, .5])):
                add(dict(zn, terms='PID', filter_derivative=False,
                         rule=rule, **km))
        for t in ('P', 'PI', 'PD', 'PID'):
            add(dict(terms=t, loop_tuning='tune', Kp=.1, time_domain=td,
                     Ki=.3, Kd=.4, anti_windup=1., filter_derivative=False,
                     CV_saturation=[-2., 2.]))
    for o in out:
        o['n'] = 5 if tier == 'thorough' else 4
    return out


def warm():
    env(plant([pid('c', 'p', 'q', 0, 35.)]))


def run(case):
    r = Result()
    k = dict(case['c'])
    if k.get('loop_tuning') is None:
        k['loop_tuning'] = 'manual'
    if 'Kp' not in k:
        k['Kp'] = 9.
    if k['loop_tuning'] == 'ziegler-nichols':
        del k['Kp']
    net = plant([pid('c', 'p', 'q', 0, 35., **k)])
    if 'Kp_crit' in k:
        del net['ctrls'][0][2]['Kp']
    let = LET
    if case.get('ref'):
        let = [dict(pv=a, m=m, dt=b) for a in (27., 43.)
               for m in (25., 38.) for b in (.25, 1.)]
    drive(r, net, words(let, case['n'] - 2, case['n']))
    r.outcome = k['terms']
    return r
