"""C22: sub-controllers."""
from mc.core import Result
from mc.drive import MASTER, MLINKS, bcs, drive, env, plant, words
from mc.models import bang, ctrl, pid

META = dict(
    title='Sub-controllers act only when their master allows it',
    statement=(
        'A concurrent sub-controller gives its off_state in every step in '
        'which the actuator of its master controller is at the master\'s '
        'off_state (or the master variable of a part is zero), a sequential '
        'one in every step in which it is not; in all other steps it follows '
        'its own law. While it is held off, the integral of a continuous '
        'PID is emptied, so that it restarts without windup. A slope limits '
        'the resulting change. Chains of sub-controllers work alike.'),
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text=(
        'all sequences of master and own process values, all combinations '
        'of controllers, dependencies and off states')),
    why_tests_cant=(
        'two coupled state machines; the interesting errors need the master '
        'to switch while the sub-controller has accumulated a state'),
    anchors=dict(
        files=['multisim/controls.py', 'multisim/parts/controllers.py'],
        mechanism=[dict(name='gating', where='controls.py:'
                        '_subcontroller_check')],
        state=[dict(name='master actuator value', meaning='on or off',
                    where='Controls._master_act_cv')],
        observe_at=['Controls.cv and the actuators after each step'],
        hook_needed=None),
    technique='explicit enumeration of input words driven through coupled '
              'real controllers in lockstep with reference state machines',
    level_note=('All words of length 2 from the start and all windows of '
                'length 3 (thorough: 4) over 12 letters for every '
                'combination.'),
)
PROPERTY = 'C22'
RULE = '(sub, master, dependency, off states, slope); all input words each'
ASSUMPTIONS = ['controllers run in the order in which they were added']
BOUNDS = 'words of length 2 from the start, windows of length 3 / 4'


def cases(tier):
    out = []
    n = 4 if tier == 'thorough' else 3
    for sub in ('P', 'PI', 'dPI', 'PID', 'bang', 'two'):
        for mas in ('bang', 'P', 'part'):
            for dep in ('concurrent', 'sequential'):
                for off in (0., .2):
                    for moff in (0., .15):
                        if mas == 'part' and moff:
                            continue
                        for sl in ([0, 0], [-.1, .3]):
                            out.append(dict(sub=sub, m=mas, dep=dep, off=off,
                                            moff=moff, sl=sl, n=n))
        for dep in ('concurrent', 'sequential'):
            for dep2 in ('concurrent', 'sequential'):
                out.append(dict(sub=sub, m='chain', dep=dep, dep2=dep2,
                                off=0., moff=0., sl=[0, 0], n=n))
    return out


def warm():
    run(dict(cases('quick')[0]))


def run(case):
    r = Result()
    dep = dict(sub_controller=True, dependency_kind=case['dep'])
    own = dict(off_state=case['off'], slope=case['sl'],
               CV_saturation=[0., 1.5])
    ctrls = []
    parts, lnk = list(MASTER), list(MLINKS)
    if case['m'] == 'part':
        parts, lnk = [], []
        dep.update(master_type='part', master_part='q', master_variable='T',
                   master_variable_index=1)
    else:
        dep.update(master_type='controller', master_controller='mc')
        mk = dict(off_state=case['moff'])
        if case['m'] == 'P':
            ctrls.append(pid('mc', 'm', 'q', 1, 35., Kp=.1, **dict(
                mk, CV_saturation=[case['moff'], 1.])))
        else:
            ctrls.append(bang('mc', 'm', 'q', 1, 35., hysteresis=4., **mk))
        if case['m'] == 'chain':
            parts.append(['pump', 'm2', dict(parts[0][2])])
            lnk += [[['BC', 'BC_c'], ['m2', 'in']],
                    [['m2', 'out'], ['BC', 'BC_x']]]
            ctrls.append(bang('mid', 'm2', 'q', 2, 35., hysteresis=6., **dict(
                dep, dependency_kind=case['dep2'])))
            dep['master_controller'] = 'mid'
    k = dict(own, **dep)
    sub = case['sub']
    if sub == 'bang':
        c = bang('c', 'p', 'q', 0, 35., **k)
    elif sub == 'two':
        c = ['two', 'c', ctrl('p', 'q', 0, 35., **dict(
            k, on_sensor_part='q', on_sensor_port=2, activation_value=32.,
            activation_sign='lower', deactivation_sign='greater',
            silence_slope_warning=True))]
    else:
        if sub[0] == 'd':
            k['time_domain'] = 'discrete'
            sub = sub[1:]
        c = pid('c', 'p', 'q', 0, 35., terms=sub, Kp=.05, Ki=.02, Kd=.01,
                filter_derivative=False, anti_windup=8., **k)
    ctrls.append(c)
    net = plant(ctrls, parts=parts, lnk=lnk)
    if parts:
        bcs(net)
    if case['m'] == 'chain':
        net['bcs'].update(BC_c=50., BC_x=20.)
    if case['m'] == 'part':
        let = [dict(pv=a, m=b, dt=.5, s=a) for a in (22., 33., 35.5, 47.)
               for b in (0., 20., -5.)]
    else:
        let = [dict(pv=a, m=b, dt=d, s=b + d) for a in (22., 34., 47.)
               for b, d in ((30., .5), (35., 1.), (41., .5), (36., .2))]
    drive(r, net, words(let, 2, case['n']))
    r.outcome = case['sub'] + '/' + case['m']
    return r
