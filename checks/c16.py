"""C16: incomplete and contradicting models are refused."""
import copy
import itertools

from mc import nets
from mc.core import Result
from mc.models import CHP, P, bc, library, links, pid
from mc.nets import build, new_env, populate, quiet

META = dict(
    title='Incomplete, contradicting or misspelt models are refused',
    statement=(
        'A model in which a port is left open, connected twice or to itself, '
        'in which a part, port, boundary condition or controller is missing, '
        'defined twice, unused or referred to by a wrong name, in which an '
        'actuator has no or two controllers, or a required parameter is '
        'missing or of a wrong type, a valve is at the wrong side of '
        'a pump or has to divide by an opening whose lower limit is 0, or a '
        'time series has a missing value, '
        'an uneven, too short or different index than the others, is '
        'refused with an error before the '
        'first step, wherever in the order of construction the fault is. '
        'Simulations are also refused when time frame, solver or storage are '
        'not set. The same model without the fault is accepted and runs.'),
    quantifier=dict(over=['configurations', 'histories'], text=(
        'every single fault at every place of every model')),
    why_tests_cant='the tests build two correct models only',
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/parts/*.py',
               'multisim/controllers.py'],
        mechanism=[
            dict(name='connections', where='simenv.py:connect_ports, '
                 '_connect_ports, _check_unconnected_ports'),
            dict(name='parts', where='simenv.py:add_part, '
                 '_get_specs_n_props, _print_arg_errs'),
            dict(name='controllers', where='simenv.py:add_control'),
        ],
        state=[dict(name='model', meaning='parts, links, controllers',
                    where='simenv')],
        observe_at=['exceptions of initialize_sim'],
        hook_needed=None),
    technique='exhaustive enumeration of all single faults (mutation of the '
              'list of construction steps) of models with every kind of '
              'part, on the real code',
    level_note=('9 models; every link removed, every pair of ends linked '
                'again (first and last in order), every name misspelt, '
                'every part, condition, controller and parameter removed or '
                'doubled.'),
)
PROPERTY = 'C16'
RULE = '(model, fault, place)'
ASSUMPTIONS = ['repeating exactly the same connect call is no fault']
BOUNDS = 'one fault per model'
WRONG = ('nope', None, {'x': 1}, -1.)
# parameters where -1 is a value as good as others
SIGNED = ('T_init', 'T_amb', 'const_val', 'setpoint', 'off_state')


def bases():
    out = {k: v[0] for k, v in library().items()}
    return out


def part_bases():
    """Models with one interesting part each, all parameters spelt out."""
    spec = {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN25'}}
    full = dict(insulation_thickness=.05, insulation_lambda=.035,
                T_init=20., T_amb=20., material='carbon_steel',
                pipe_specs=spec, grid_points=4)
    tail = lambda kind: links((bc('a'), ['p', 'in']), (['p', 'out'], [
        'x', 'in']), (['x', 'out'], bc('z')))
    two = {'BC_a': 50., 'BC_z': 20.}
    out = {
        'pipe': dict(parts=[P('p', .1), ['pipe', 'x', dict(
            full, length=1.)]], links=tail('pipe'), bcs=two),
        'pump': dict(parts=[['pump', 'x', dict(
            full, length=1., start_massflow=.1, ctrl_required=False,
            const_val=.1)]], links=links(
                (bc('a'), ['x', 'in']), (['x', 'out'], bc('z'))), bcs=two),
        'tes': dict(parts=[P('p', .1), ['tes', 'x', dict(
            full, volume=.2, outer_diameter=.5, shell_thickness=5e-3)]],
            links=tail('tes'), bcs=two),
        'heated': dict(parts=[P('p', .1), ['heated', 'x', dict(
            full, length=1., heat_spread='all', lower_limit=0.,
            upper_limit=1e4, heat=10.)]], links=tail('heated'), bcs=two),
        'branch': dict(
            parts=[P('p', .1), P('r', .03), ['branch', 'x', dict(
                full, length=1., new_ports={'p1': [2, 'index']})]],
            links=tail('branch') + links(
                (['x', 'p1'], ['r', 'in']), (['r', 'out'], bc('r'))),
            bcs=dict(two, BC_r=20.)),
        'valve': dict(
            parts=[P('p', .1), ['valve', 'x', dict(
                full, length=1., valve_location=1, start_portA_opening=.4,
                ctrl_required=False, const_val=.4, lower_limit=0.,
                upper_limit=1.)]],
            links=links((bc('a'), ['x', 'A']), (bc('b'), ['x', 'B']),
                        (['x', 'AB'], ['p', 'in']), (['p', 'out'],
                                                     bc('z'))),
            bcs=dict(two, BC_b=20.)),
        'conn3': dict(
            parts=[P('p', .1), P('r', .03), ['conn3', 'x', dict(
                material='carbon_steel', pipe_specs=spec)]],
            links=links((bc('a'), ['p', 'in']), (['p', 'out'], ['x', 'A']),
                        (['x', 'B'], ['r', 'in']), (['r', 'out'], bc('r')),
                        (['x', 'C'], bc('z'))),
            bcs=dict(two, BC_r=20.)),
    }
    return out


def faults(n):
    """-> (what, net, insert links at the front?) for all single faults."""
    L = n['links']
    c = copy.deepcopy
    ends = [(i, j) for i in range(len(L)) for j in (0, 1)]

    def put(link, at):
        m = c(n)
        m['links'].insert(at, c(link))
        return m

    for i in range(len(L)):
        m = c(n)
        del m['links'][i]
        yield 'open ports', m
        for at in (0, len(L)):
            yield 'connected twice', put(L[i][::-1], at)
    for (i, j), (k, l) in itertools.permutations(ends, 2):
        if i != k and 'BC' not in (L[i][j][0], L[k][l][0]):
            for at in (0, len(L)):
                yield 'connected twice', put([L[i][j], L[k][l]], at)
    for i, j in ends:
        for e in ([L[i][j][0], 'nope'], ['nope', L[i][j][1]], L[i][1 - j]):
            if e == L[i][1 - j] and e[0] == 'BC':
                continue
            m = c(n)
            m['links'][i][j] = list(e)
            yield 'wrong end', m
        # one end moved to another used port: twice and open at once
        for k, l in ends:
            if (i, j) != (k, l) and 'BC' not in (L[k][l][0], L[i][j][0]):
                m = c(n)
                m['links'][i][j] = list(L[k][l])
                yield 'moved end', m
    for i in range(len(n['parts'])):
        m = c(n)
        m['parts'].append(c(m['parts'][i]))
        yield 'part twice', m
        m = c(n)
        del m['parts'][i]
        yield 'part missing', m
        m = c(n)
        m['parts'].append(['pipe', 'extra', {}])
        yield 'part without connections', m
    for b in n['bcs']:
        m = c(n)
        del m['bcs'][b]
        yield 'boundary condition missing', m
    m = c(n)
    m['bcs']['BC_extra'] = 20.
    yield 'boundary condition unused', m
    for i, (kind, name, p) in enumerate(n.get('ctrls', [])):
        m = c(n)
        del m['ctrls'][i]
        yield 'controller missing', m
        m = c(n)
        m['ctrls'].append(c(m['ctrls'][i]))
        yield 'controller twice', m
        m = c(n)
        x = c(m['ctrls'][i])
        x[1] = 'other'
        m['ctrls'].append(x)
        yield 'two controllers', m
        for k in p:
            m = c(n)
            del m['ctrls'][i][2][k]
            yield 'controller parameter missing', m
        for k in ('actuator', 'controlled_part', 'controlled_port',
                  'reference_part', 'process_CV_mode', 'time_domain',
                  'sub_controller', 'deadtime', 'slope', 'invert',
                  'CV_saturation', 'setpoint'):
            m = c(n)
            m['ctrls'][i][2][k] = 'nope'
            yield 'controller parameter wrong', m


def cases(tier):
    out = []
    for name, n in bases().items():
        fs = list(faults(n))
        out.append(dict(model=name, fault=None, net=n))
        for what, m in fs:
            out.append(dict(model=name, fault=what, net=m))
    for name, n in part_bases().items():
        out.append(dict(model=name, fault=None, net=n))
        i = [q[1] for q in n['parts']].index('x')
        for k in n['parts'][i][2]:
            if k == 'heat' or name == 'valve' and 'limit' in k:
                continue  # not needed without a controller
            m = copy.deepcopy(n)
            # the harness would fill in its own default: mark as removed
            m['drop'] = k
            out.append(dict(model=name, fault='parameter missing', net=m))
            for w in WRONG:
                if w == -1. and (k in SIGNED or name == 'tes' and
                                 k == 'volume'):
                    continue
                m = copy.deepcopy(n)
                m['parts'][i][2][k] = w
                out.append(dict(model=name, fault='parameter wrong', net=m))
    for k in range(8):
        out.append(dict(model='pipe', fault='settings' if k != 7 else None,
                        settings=[bool(k & 1), bool(k & 2), bool(k & 4)]))
    out.append(dict(model='pipe', fault='settings', settings=None))
    out += series_cases()
    # a pump at a side port of a controlled valve which may close
    for kind in ('valve', 'mix', 'split'):
        for side in 'AB':
            for lo, hi in ((0., .9), (.1, .9), (0., 1.), (.2, 1.), (0., 0.)):
                if hi == 1. and lo:
                    continue
                out.append(dict(model='side', fault=(
                    'valve at the wrong side of a pump' if kind != 'valve'
                    else None if lo else 'division by a closed valve'),
                                net=side_net(kind, side, lo, hi)))
    return out


def side_net(kind, side, lo, hi):
    other = 'B' if side == 'A' else 'A'
    v, ctrls = ['mixv', 'v', dict(mix_or_split=kind, port_A_init=.5,
                                  lower_limit=lo, upper_limit=hi)], []
    if kind == 'valve':
        v = ['valve', 'v', dict(start_portA_opening=.5, lower_limit=lo,
                                upper_limit=hi)]
        ctrls = [pid('vc', 'v', 'q', 0, 50., Kp=.01,
                     process_CV_mode='part_specific')]
    i, o = ('in', 'out') if kind != 'split' else ('out', 'in')
    return dict(parts=[P('p', .1), v, ['pipe', 'q', {}], ['pipe', 'r', {}]],
                links=links((bc('a'), ['p', i]), (['p', o], ['v', side]),
                            (['v', other], ['q', 'in']), (['q', 'out'], bc(
                                'b')), (['v', 'AB'], ['r', 'in']),
                            (['r', 'out'], bc('c'))),
                bcs={'BC_a': 50., 'BC_b': 20., 'BC_c': 20.}, ctrls=ctrls)


N = 10


def series_cases():
    """Faults in one of up to three time series."""
    out = []
    good = [[i, 40. + i] for i in range(N)]

    def bad(first):
        nan = float('nan')
        for k in range(N):
            yield 'NaN', [[i, nan if i == k else v] for i, v in good]
            yield 'uneven', [[i + .3 * (i == k), v] for i, v in good]
            if 0 < k < N - 1:
                yield 'gap', good[:k] + good[k + 1:]
                yield 'order', good[:k] + [good[k + 1], good[k]] + \
                    good[k + 2:]
        if first:
            yield 'short', good[:3]
        else:
            yield 'other length', good[:-1]
            yield 'other length', good[1:]
            yield 'other length', good + [[N, 1.]]
            yield 'other times', [[i + 1, v] for i, v in good]
            yield 'other times', [[i - 1, v] for i, v in good]
            yield 'other times', [[2 * i, v] for i, v in good]
            yield 'other times', [[.5 * i, v] for i, v in good]

    places = ('pump', 'chp', 'a', 'z')     # in the order of construction
    for n in (1, 2, 3):
        for used in itertools.combinations(places, n):
            out.append(dict(model='series', fault=None,
                            series={p: good for p in used}))
            for p in used:
                for what, x in bad(p == used[0]):
                    if n > 1 and p == used[0] and what == 'short':
                        continue
                    out.append(dict(
                        model='series', fault='series: ' + what,
                        series={q: x if q == p else good for q in used}))
    for p in places:
        for what in ('int index', 'list'):
            out.append(dict(model='series', fault='series: ' + what,
                            series={p: good}, raw=what))
    return out


def series_net(case):
    x = case['series']

    def act(p, v):
        return dict(time_series=x[p]) if p in x else dict(const_val=v)

    return dict(
        parts=[['pump', 'p', dict(length=1., start_massflow=40.,
                                  grid_points=4, ctrl_required=False,
                                  **act('pump', .1))],
               ['chp', 'c', dict({k: v for k, v in CHP.items()},
                                 ctrl_required=False, **act('chp', 0.))]],
        links=links((bc('a'), ['p', 'in']), (['p', 'out'], ['c', 'in']),
                    (['c', 'out'], bc('z'))),
        bcs={'BC_' + k: {'series': x[k]} if k in x else 20. for k in 'az'})


def warm():
    with quiet():
        s = build(bases()['pipe'], .3)
        s.initialize_sim()
        s.start_sim()


class Dropper:
    """Forwards everything, but loses one parameter of part x."""

    def __init__(self, s, key):
        self.s, self.key = s, key

    def __getattr__(self, a):
        return getattr(self.s, a)

    def add_part(self, cls, name, **k):
        if name == 'x':
            k.pop(self.key)
        return self.s.add_part(cls, name=name, **k)


def raw_series(case):
    keep = nets.series
    if case.get('raw') == 'list':
        nets.series = lambda x: [v for _, v in x]
    elif case.get('raw') == 'int index':
        nets.series = lambda x: keep(x).reset_index(drop=True)
    try:
        return build(series_net(case), 6.)
    finally:
        nets.series = keep


def attempt(case):
    """-> (refused at, exception), or None when the first steps were run."""
    stage = 'construction'
    try:
        with quiet():
            if 'series' in case:
                s = raw_series(case)
                s.initialize_sim()
            elif 'settings' in case:
                import multisim as ms
                s = ms.Models(suppress_printing=True)
                a = case['settings'] or [True] * 3
                if a[0]:
                    s.set_disksaving(save=False)
                if a[1]:
                    s.set_timeframe(timeframe=.3, adaptive_steps=True)
                if a[2]:
                    s.set_solver(solver='heun', allow_implicit=False)
                populate(s, bases()['pipe'])
                if case['settings'] is not None:
                    s.initialize_sim()
            elif 'drop' in case['net']:
                s = new_env(.3)
                populate(Dropper(s, case['net']['drop']), case['net'])
                s.initialize_sim()
            else:
                s = build(case['net'], .3)
                s.initialize_sim()
            stage = 'start'
            s.start_sim()
    except Exception as e:
        steps = len(getattr(s, 'time_vec', ())) if stage == 'start' else 0
        return stage, e, steps
    return None


def run(case):
    r = Result()
    r.transitions += 1
    r.validated += 1
    r.see(case['model'], case['fault'], case.get('net'), case.get('settings'),
          case.get('series'), case.get('raw'))
    got = attempt(case)
    if case['fault'] is None:
        r.outcome = 'accepted'
        if got is not None:
            r.fail('correct model refused: %s' % str(got[1])[:300],
                   'accepted')
        return r
    r.outcome = case['fault']
    if got is None:
        r.fail('%s: accepted and run' % case['fault'],
               case['fault'])
    elif not isinstance(got[1], (AssertionError, ValueError, TypeError,
                                 KeyError, Warning, IndexError,
                                 AttributeError, NotImplementedError)):
        r.fail('%s: %s %s' % (case['fault'], type(got[1]).__name__,
                              got[1]), case['fault'])
    return r
