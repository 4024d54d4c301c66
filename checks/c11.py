"""C11: two-point controllers."""
from mc.core import Result
from mc.drive import drive, env, plant, words
from mc.models import bang, ctrl, pid

META = dict(
    title='Bang-bang and two-sensor controllers switch only at their limits',
    statement=(
        'A bang-bang controller is switched on (output = upper saturation '
        'limit) when the process value is below setpoint - hysteresis/2, '
        'switched to off_state when it is above setpoint + hysteresis/2 and '
        'keeps its output anywhere in between, limits included; a negative '
        'hysteresis exchanges the two. A two-sensor controller is switched '
        'on when the on-sensor is below (above) the activation value, '
        'switched to off_state when the process value is above (below) the '
        'setpoint - switching off has priority - and keeps its output '
        'otherwise. With invert the on-value is the negative upper limit. '
        'Before the first switching the output is 0. The setpoint may be '
        'the value of another part plus a difference.'),
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text=(
        'all sequences of sensor values (including values exactly on the '
        'switching limits) and step sizes, all controller settings')),
    why_tests_cant=(
        'hysteresis is a state machine; wrong memory only shows in '
        'particular orders of sensor values'),
    anchors=dict(
        files=['multisim/controls.py', 'multisim/parts/controllers.py'],
        mechanism=[
            dict(name='bang-bang', where='controllers.py:BangBang'),
            dict(name='two sensors', where='controllers.py:TwoSensors'),
        ],
        state=[dict(name='cv', meaning='switched state',
                    where='Controls.cv')],
        observe_at=['Controls.cv after each ctrl() call', 'actuator value'],
        hook_needed=None),
    technique='explicit enumeration of input words driven through the real '
              'controller in lockstep with a reference state machine',
    level_note=('All words of length 2 from the start and all words of '
                'length 3 (thorough: 4) inside a run, over 9 to 16 letters '
                'that include the switching limits themselves.'),
)
PROPERTY = 'C11'
RULE = '(controller settings); per setting all input words as stated'
ASSUMPTIONS = []
BOUNDS = 'words of length 2 from the start, all windows of length 3 / 4'


def cases(tier):
    out = []
    n = 4 if tier == 'thorough' else 3
    for h in (2., 7.5, -3., 0, -.5, 1):
        for sat in ([0., 1.], [-.5, 2.]):
            for off in (0., .25):
                for inv in (False, True):
                    for td in ('continuous', 'discrete'):
                        for ref in (0, 1):
                            out.append(dict(
                                k='bang', h=h, sat=sat, off=off, inv=inv,
                                td=td, ref=ref, n=n))
    for a in ('lower', 'greater'):
        for d in ('lower', 'greater'):
            for sp, av in ((60., 40.), (40., 60.), (50., 50)):
                for sat, off in (([0., 1.], 0.), ([-.5, 2.], .25)):
                    for inv in (False, True):
                        out.append(dict(k='two', a=a, d=d, sp=sp, av=av,
                                        sat=sat, off=off, inv=inv, n=n))
    return out


def warm():
    env(plant([pid('c', 'p', 'q', 0, 35.)]))


def run(case):
    r = Result()
    k = dict(CV_saturation=case['sat'], off_state=case['off'],
             invert=case['inv'])
    if case['k'] == 'bang':
        h = abs(case['h']) / 2
        k.update(time_domain=case['td'], hysteresis=case['h'])
        pvs = sorted({35. + x for x in (-h - 1, -h, -h / 2, 0, h, h + .5,
                                        -h - 1e-6, h + 1e-6)})
        let = [dict(pv=v, dt=1. if i % 2 else .3)
               for i, v in enumerate(pvs)]
        if case['ref']:
            k.update(reference_part='q', reference_port=1, ref_SP_diff=-5.,
                     setpoint=0)
            let = [dict(x, m=m) for x in let for m in (40., 41.)]
        c = bang('c', 'p', 'q', 0, 35., **k)
    else:
        c = ['two', 'c', ctrl('p', 'q', 0, case['sp'], **dict(
            k, on_sensor_part='q', on_sensor_port=2,
            activation_value=case['av'], activation_sign=case['a'],
            deactivation_sign=case['d']))]
        let = [dict(pv=case['sp'] + a, s=case['av'] + b, dt=.5)
               for a in (-20., -1e-6, 0, 5.) for b in (-20., 0, 1e-6, 12.)]
    drive(r, plant([c]), words(let, 2, case['n']))
    r.outcome = case['k']
    return r
