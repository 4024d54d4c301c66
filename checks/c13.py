"""C13: dead time."""
from mc.core import Result
from mc.drive import drive, env, plant, words
from mc.models import bang, pid

META = dict(
    title='A controller with dead time sees the process value of that time ago',
    statement=(
        'A PID or bang-bang controller with a dead time acts on the process '
        'value exactly dead time seconds ago, linearly interpolated between '
        'the values at the steps before and after that moment (25 degC '
        'until the first value has become that old), for every sequence of '
        'step sizes: shorter or longer than the dead time, hitting it '
        'exactly or not, and however many steps fit into it.'),
    quantifier=dict(over=['inputs', 'histories'], text=(
        'all sequences of process values and step sizes, all dead times')),
    why_tests_cant=(
        'the delay line has index bookkeeping with separate branches for '
        'hit, miss and overshoot that only mixed step sizes exercise'),
    anchors=dict(
        files=['multisim/controls.py', 'multisim/precomp_funs.py',
               'multisim/parts/controllers.py'],
        mechanism=[
            dict(name='delay line', where='precomp_funs.py:ctrl_deadtime'),
            dict(name='call', where='controls.py:Controls.ctrl'),
        ],
        state=[dict(name='ages and values', meaning='samples not yet used up',
                    where='Controls.dt_arr, pv_arr')],
        observe_at=['Controls.cv after each ctrl() call'],
        hook_needed=None),
    technique='explicit enumeration of input words driven through the real '
              'controller in lockstep with a reference delay line',
    level_note=('All words of length 2 from the start and all windows of '
                'length 4 (thorough: 5) over 8 letters with 2-4 step sizes, '
                '7 dead times, 5 step alphabets, 3 controllers; runs of '
                'tiny steps up to twice the dead time.'),
)
PROPERTY = 'C13'
RULE = '(controller, dead time, step sizes); per setting all input words'
ASSUMPTIONS = ['the value before the first call is 25 degC, as documented in '
               'the code']
BOUNDS = 'words of length 2 from the start, windows of length 4 / 5'
STEPS = {'fine': (.1, .25), 'coarse': (1., 3.), 'mixed': (.2, 4.),
         'odd': (.3, .7), 'four': (.05, .4, 1., 2.5)}


def cases(tier):
    out = []
    for D in (.3, .5, 1, 2., 3.7, .004, 8.):
        for st in STEPS:
            for c in ('P', 'PID', 'bang'):
                out.append(dict(D=D, st=st, c=c,
                                n=5 if tier == 'thorough' else 4))
        for c in ('P', 'bang'):
            for h in (2, 6, 101, 130, 250) + ((1000,) if tier != 'quick'
                                              else ()):
                out.append(dict(D=D, tiny=h, c=c))
    return out


def warm():
    run(dict(D=1, tiny=2, c='P'))


def run(case):
    r = Result()
    k = dict(deadtime=case['D'], CV_saturation=[-9., 9.])
    if case['c'] == 'bang':
        c = bang('c', 'p', 'q', 0, 35., hysteresis=4., **k)
    elif case['c'] == 'P':
        c = pid('c', 'p', 'q', 0, 35., **k)
    else:
        c = pid('c', 'p', 'q', 0, 35., **dict(
            k, terms='PID', Kp=.05, Ki=.01, Kd=.01, anti_windup=30.,
            filter_derivative=False))
    if 'tiny' in case:
        # `tiny` steps per dead time, with one long step in between
        h = case['D'] / case['tiny'] * .999
        w = [dict(pv=20. + 3 * ((i * i) % 11), dt=h)
             for i in range(2 * case['tiny'] + 5)]
        w2 = w[:case['tiny'] // 2] + [dict(pv=50., dt=case['D'] * 1.7)] + w
        ws = [w, w2]
    else:
        st = STEPS[case['st']]
        pvs = (22., 31., 37.5, 48.) if len(st) == 2 else (22., 48.)
        ws = words([dict(pv=a, dt=b) for a in pvs for b in st], 2,
                   case['n'])
    drive(r, plant([c]), ws)
    r.outcome = 'tiny' if 'tiny' in case else case['st']
    return r
