"""A small library of networks that exercise every part type.

Each entry is (net, timeframe, time stepping options); all data is plain JSON.
"""


def P(n, f, **k):
    return ['pump', n, dict({'flow': f}, **k)]


def bc(n):
    return ['BC', 'BC_' + n]


def links(*x):
    return [[list(a), list(b)] for a, b in x]


def chain(*names, **ports):
    """open - a - b - ... - open through in/out ports."""
    out = [[bc('a'), [names[0], 'in']]]
    for a, b in zip(names, names[1:]):
        out.append([[a, 'out'], [b, 'in']])
    out.append([[names[-1], 'out'], bc('z')])
    return out


def net(parts, lnk, temps, ctrls=()):
    return dict(parts=parts, links=lnk, bcs=temps, ctrls=list(ctrls))


def ctrl(actuator, part, port, sp, **k):
    d = dict(actuator=actuator, process_CV_mode='direct',
             CV_saturation=[0.0, 1.0], controlled_part=part,
             controlled_port=port, setpoint=sp, off_state=0.0,
             sub_controller=False, reference_part='none',
             time_domain='continuous', deadtime=0.0, slope=[0, 0],
             invert=False)
    d.update(k)
    return d


def bang(name, actuator, part, port, sp, **k):
    return ['bang', name, ctrl(actuator, part, port, sp,
                               **dict({'hysteresis': 2.0}, **k))]


def pid(name, actuator, part, port, sp, **k):
    return ['pid', name, ctrl(actuator, part, port, sp, **dict(
        dict(terms='P', loop_tuning='manual', Kp=0.05), **k))]


def saw(lo, hi, half, n):
    """Square wave on a 1 s grid: half period in s, n points."""
    return {'series': [[t, lo if (t // half) % 2 == 0 else hi]
                       for t in range(n)]}


CHP = dict(length=1.0, grid_points=4, heat_spread='all',
           power_electrical=2000.0, modulation_range=[0.5, 1.0],
           lower_limit=0.0, upper_limit=1.0, min_on_time=3.0,
           min_off_time=4.0, connect_fluegas_hex=False)


def library():
    m = {}
    m['pipe'] = (net([P('p', .1), ['pipe', 'q', {}]], chain('p', 'q'),
                     {'BC_a': 50.0, 'BC_z': 20.0}), 3.0, {})
    m['tes'] = (net(
        [P('p', .3), P('r', .2),
         ['tes', 't', {'new_ports': {'x': [1, 'index'], 'y': [2, 'index']},
                       'T_init': [60.0, 50.0, 40.0, 30.0]}]],
        links((bc('a'), ['p', 'in']), (['p', 'out'], ['t', 'in']),
              (['t', 'out'], bc('b')), (['t', 'x'], ['r', 'in']),
              (['r', 'out'], ['t', 'y'])),
        {'BC_a': 70.0, 'BC_b': 20.0}), 8.0, {})
    m['heated'] = (net(
        [P('p', .1), ['heated', 'h', {}], ['branch', 'b', {}]],
        links((bc('a'), ['p', 'in']), (['p', 'out'], ['h', 'in']),
              (['h', 'out'], ['b', 'in']), (['b', 'out'], bc('z')),
              (['b', 'p1'], ['r', 'in']), (['r', 'out'], bc('y'))),
        {'BC_a': saw(25.0, 45.0, 2, 30), 'BC_z': 20.0, 'BC_y': 20.0},
        [bang('bb', 'h', 'h', 'out', 35.0,
              CV_saturation=[0.0, 8000.0])]), 8.0, {})
    m['heated'][0]['parts'].append(P('r', .04))
    m['valve'] = (net(
        [P('p', .1), ['valve', 'v', {
            'start_portA_opening': .5, 'lower_limit': 0.0,
            'upper_limit': 1.0, 'ctrl_required': True}],
         ['conn3', 'c', {}], ['pipe', 'q', {}]],
        links((bc('a'), ['v', 'A']), (bc('b'), ['v', 'B']),
              (['v', 'AB'], ['p', 'in']), (['p', 'out'], ['c', 'A']),
              (['c', 'B'], ['r', 'in']), (['r', 'out'], bc('c')),
              (['c', 'C'], ['q', 'in']), (['q', 'out'], bc('d'))),
        {'BC_a': 70.0, 'BC_b': saw(20.0, 30.0, 2, 30), 'BC_c': 20.0,
         'BC_d': 20.0},
        [pid('pv', 'v', 'v', 'AB', 45.0,
             process_CV_mode='part_specific')]), 6.0, {})
    m['valve'][0]['parts'].append(P('r', .04))
    m['hexnum'] = (net(
        [P('p', .1), P('r', .15), ['hexnum', 'h', {}]],
        links((bc('a'), ['p', 'in']), (['p', 'out'], ['h', 'sup_in']),
              (['h', 'sup_out'], bc('b')),
              (bc('c'), ['r', 'in']), (['r', 'out'], ['h', 'dmd_in']),
              (['h', 'dmd_out'], bc('d'))),
        {'BC_a': 70.0, 'BC_b': 20.0, 'BC_c': 20.0, 'BC_d': 20.0}), .6, {})
    m['hex'] = (net(
        [P('p', .1), P('r', .15), ['hex', 'h', {}]],
        links((bc('a'), ['p', 'in']), (['p', 'out'], ['h', 'sup_in']),
              (['h', 'sup_out'], bc('b')),
              (bc('c'), ['r', 'in']), (['r', 'out'], ['h', 'dmd_in']),
              (['h', 'dmd_out'], bc('d'))),
        {'BC_a': 70.0, 'BC_b': 20.0, 'BC_c': 20.0, 'BC_d': 20.0}), 3.0, {})
    m['mix'] = (net(
        [P('p', .1), ['pipe', 'q', {'T_init': 60.0}], ['pipe', 'r', {}],
         ['mixv', 'm', {'port_A_init': .4, 'mix_or_split': 'mix'}]],
        links((bc('a'), ['q', 'in']), (['q', 'out'], ['m', 'A']),
              (bc('b'), ['r', 'in']), (['r', 'out'], ['m', 'B']),
              (['m', 'AB'], ['p', 'in']), (['p', 'out'], bc('z'))),
        {'BC_a': 70.0, 'BC_b': 20.0, 'BC_z': 20.0}), 3.0, {})
    m['chp'] = (net(
        [P('p', .1), ['chp', 'c', dict(CHP)]], chain('p', 'c'),
        {'BC_a': saw(40.0, 60.0, 5, 60), 'BC_z': 20.0},
        [bang('bb', 'c', 'p', 'in', 50.0)]), 12.0, {'max_stepsize': .5})
    m['closed'] = (net(
        [P('p', .2), ['heated', 'h', {'heat': 3000.0}],
         ['tes', 't', {}]],
        links((['p', 'out'], ['h', 'in']), (['h', 'out'], ['t', 'in']),
              (['t', 'out'], ['p', 'in'])), {}), 4.0, {})
    return m
