"""C01: the hydraulic solution of every small network is Kirchhoff's."""
import numpy as np

from mc import flowref as fr
from mc.core import Result
from mc.nets import quiet, run as run_net, series, build, ms

META = dict(
    title='Mass flows obey pump, valve and continuity laws in every network',
    statement=(
        'In every network whose flows are uniquely fixed by its pumps and '
        'valve settings, the mass flow recorded for every part at every time '
        'step is the one that satisfies all conservation laws: what leaves a '
        'port enters the connected port, the flows through the ports of a '
        'part (per flow channel of a heat exchanger) cancel, each pump '
        'delivers its set flow and each three-way valve splits or mixes by '
        'its opening. Such a network is always accepted, whichever ports are '
        'joined to which and in whichever direction the flow then passes a '
        'part. A network in which the flow through a pipe, valve, branch, '
        'junction or heat exchanger is not determined is refused instead of '
        'being simulated.'),
    quantifier=dict(over=['programs', 'configurations', 'inputs'], text=(
        'all ways to wire a set of parts (each port to any other port or to '
        'an open port), all pump flows and valve openings, every step')),
    why_tests_cant=(
        'the tests build one open pump pipe and never read a mass flow; the '
        'guarantee ranges over all topologies, port orientations and '
        'actuator values'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/flownet.py',
               'multisim/parts/pipe.py', 'multisim/parts/pipe_with_pump.py',
               'multisim/parts/pipe_with_valve.py',
               'multisim/parts/pipe_branched.py', 'multisim/parts/tes.py',
               'multisim/parts/connector_3w.py',
               'multisim/parts/mixingvalve.py', 'multisim/parts/pump.py',
               'multisim/parts/hex_num.py', 'multisim/parts/heatexchanger.py',
               'multisim/precomp_funs.py'],
        mechanism=[
            dict(name='topology walk from the pumps',
                 where='simenv.py:_get_topology/_recursive_topology'),
            dict(name='per-part flow routine (sign and operation choice)',
                 where='parts/*:_get_flow_routine, simenv.py:_get_topo_cond'),
            dict(name='flow update at every step',
                 where='simenv.py:_update_FlowNet'),
            dict(name='per-cell flows',
                 where='precomp_funs.py:_process_flow_invar/_var/_multi_flow'),
        ],
        state=[dict(name='recorded mass flow', meaning='one row per time step',
                    where='res_dm of each part')],
        observe_at=['recorded mass flow of every part', 'initialize_sim'],
        hook_needed=None),
    technique='exhaustive enumeration of all wirings of small part sets, run '
              'on the real code, against a linear Kirchhoff reference model',
    level_note=(
        'All wirings of the listed part multisets with the listed flows and '
        'openings; larger networks are not covered. Networks whose laws '
        'contradict each other (over-determined) are outside the property.'),
)
PROPERTY = 'C01'
RULE = ('every perfect or partial matching of the ports of each part '
        'multiset, unmatched ports open to a boundary; times flow/opening '
        'vectors; non-trivial: accepted and all flows compared')
ASSUMPTIONS = ['reference: least-squares solution of the linear balance '
               'system and a walk-from-the-pumps determinacy closure']
BOUNDS = 'up to 4 parts, up to 10 ports, up to 2 pumps, constant and varying'


def P(n, f):
    return ['pump', n, {'flow': f}]


def _sets(tier):
    v = ['valve', 'v', {'opening': 0.3}]
    b = ['branch', 'b', {}]
    c = ['conn3', 'c', {}]
    t = ['tes', 't', {}]
    q = ['pipe', 'q', {}]
    t3 = ['tes', 't', {'new_ports': {'x': [1, 'index']}}]
    t4 = ['tes', 't', {'new_ports': {'x': [1, 'index'], 'y': [2, 'index']}}]
    out = [
        [P('p', .1), q], [P('p', .1), v], [P('p', .1), b], [P('p', .1), c],
        [P('p', .1), t], [P('p', .1), q, ['pipe', 'r', {}]],
        [['rawpump', 'p', {'flow': .1}], q],
        [['rawpump', 'p', {'flow': .1}], v],
        [P('p', .1), ['heated', 'q', {'heat': 0}]],
        [P('p', .1), ['hexnum', 'h', {}]],
        [P('p', .1), ['hex', 'h', {}]],
        [P('p', .1), P('r', .25), c], [P('p', .1), P('r', .25), b],
        [P('p', .1), P('r', .25), t3], [P('p', .1), P('r', .25), v],
        [P('p', .1), v, t], [P('p', .1), v, q], [P('p', .1), v, c],
        [P('p', .1), v, b], [P('p', .1), b, t], [P('p', .1), c, t],
        [P('p', .1), v, ['valve', 'w', {'opening': .6}]],
        [P('p', .1), ['valve', 'v', {'opening': .3, 'valve_location': 2}], b],
        [P('p', .1), b, c],
    ]
    if tier == 'thorough':
        out += [
            [P('p', .1), P('r', .25), ['hexnum', 'h', {}]],
            [P('p', .1), P('r', .25), ['hex', 'h', {}]],
            [P('p', .1), P('r', .25), t4],
            [P('p', .1), P('r', .25), v, q],
            [P('p', .1), v, c, q], [P('p', .1), v, b, q],
            [P('p', .1), v, t3], [P('p', .1), P('r', .25), v, c],
            [P('p', .1), P('r', .25), b, c],
            [P('p', .1), P('r', .25), v, t],
            [P('p', .1), v, t3, q],
            [P('p', .1), P('r', .25), P('s', .4), t4],
        ]
    return out


def _hash01(*a):
    """Deterministic spread of the value vectors over the wirings."""
    return sum((i + 1) * 7 * ord(ch) for i, ch in enumerate(repr(a)))


def cases(tier):
    out = []
    for parts in _sets(tier):
        ports = [(n, q) for k, n, p in parts for q in fr.ports_of(k, p)]
        for m in fr.matchings(ports):
            if len(ports) >= 8 and _trivial(m, parts):
                continue
            net = fr.wire(parts, m)
            if fr.solve(net) is None:
                continue           # contradictory laws: outside the property
            out.append(dict(net=net, mode='const'))
    out += templates(tier)
    return out


def _trivial(m, parts):
    """Some part touches only open ports: the smaller set covers it."""
    touched = {a[0] for a, b in m if b} | {b[0] for a, b in m if b}
    return len(touched) < len(parts)


def templates(tier):
    """Fixed wirings, all flow and opening combinations, varying flows."""
    out = []
    fl = [0.0, 0.05, 0.2]
    op = [0.0, 0.3, 1.0]
    L = lambda *x: [[list(a), list(b)] for a, b in x]

    def bc(n):
        return ('BC', 'BC_' + n)

    def add(parts, links, mode='const', ser=None):
        names = {b for l in links for a, b in l if a == 'BC'}
        net = dict(parts=parts, links=links,
                   bcs={n: 20.0 for n in sorted(names)})
        out.append(dict(net=net, mode=mode, **({'ser': ser} if ser else {})))

    for f in fl:
        for o in op:
            # mixing and splitting valve pipe, flow from either side
            for loc in (0, 1, 3):
                v = ['valve', 'v', {'opening': o, 'valve_location': loc}]
                add([P('p', f), v], L((bc('a'), ('v', 'A')),
                                      (bc('b'), ('v', 'B')),
                                      (('v', 'AB'), ('p', 'in')),
                                      (('p', 'out'), bc('c'))))
                add([P('p', f), v], L((bc('a'), ('v', 'A')),
                                      (bc('b'), ('v', 'B')),
                                      (('v', 'AB'), ('p', 'out')),
                                      (('p', 'in'), bc('c'))))
            # plain mixing / splitting valve between pipes
            for ms_, pin in (('mix', 'in'), ('split', 'out')):
                mv = ['mixv', 'm', {'port_A_init': o, 'mix_or_split': ms_}]
                ends = ('p', pin), ('p', 'out' if pin == 'in' else 'in')
                add([P('p', f), ['pipe', 'q', {}], ['pipe', 'r', {}], mv],
                    L((bc('a'), ('q', 'in')), (('q', 'out'), ('m', 'A')),
                      (bc('b'), ('r', 'in')), (('r', 'out'), ('m', 'B')),
                      (('m', 'AB'), ends[0]), (ends[1], bc('c'))))
            # valve -> storage with two more ports -> second pump
            for f2 in fl:
                t4 = ['tes', 't', {'new_ports': {'x': [1, 'index'],
                                                 'y': [2, 'index']}}]
                for x, y in (('x', 'y'), ('y', 'x'), ('in', 'y'),
                             ('out', 'x')):
                    rest = [k for k in ('in', 'out', 'x', 'y')
                            if k not in (x, y)]
                    add([['valve', 'v', {'opening': o}], t4, P('p', f),
                         P('r', f2)],
                        L((bc('a'), ('v', 'A')), (bc('b'), ('v', 'B')),
                          (('v', 'AB'), ('p', 'in')), (('p', 'out'), ('t', x)),
                          (('t', y), ('r', 'in')),
                          (('r', 'out'), ('t', rest[0])),
                          (('t', rest[1]), bc('c'))))
    # storage with 4 ports in every index arrangement, three pumps
    for i in range(4):
        for j in range(4):
            t4 = ['tes', 't', {'new_ports': {'x': [i, 'index'],
                                             'y': [j, 'index']}}]
            for d in ((1, 1, 1), (1, -1, 1), (-1, 1, -1), (1, -1, -1)):
                ln = []
                for n, s, tp in zip('prs', d, ('in', 'x', 'y')):
                    a, b = ('in', 'out') if s > 0 else ('out', 'in')
                    ln += [(bc(n), (n, a)), ((n, b), ('t', tp))]
                ln += [(('t', 'out'), bc('o'))]
                add([t4, P('p', .05), P('r', .12), P('s', .2)], L(*ln))
    # branched pipe, two extra ports, all index pairs, three pumps
    for i in range(4):
        for j in range(4):
            if i == j:
                continue
            b = ['branch', 'b', {'new_ports': {'x': [i, 'index'],
                                               'y': [j, 'index']}}]
            for d in ((1, 1, 1), (1, -1, 1), (-1, 1, -1)):
                ln = []
                for n, s, tp in zip('prs', d, ('in', 'x', 'y')):
                    a, bb = ('in', 'out') if s > 0 else ('out', 'in')
                    ln += [(bc(n), (n, a)), ((n, bb), ('b', tp))]
                ln += [(('b', 'out'), bc('o'))]
                add([b, P('p', .05), P('r', .12), P('s', .2)], L(*ln))
    # heat exchangers: both arrangements, all four flow direction pairs
    for kind, prm in (('hexnum', {'flow_type': 'counter'}),
                      ('hex', {})):
        for s1 in (1, -1):
            for s2 in (1, -1):
                ends = {1: ('in', 'out'), -1: ('out', 'in')}
                a, b = ends[s1]
                c, d = ends[s2]
                add([P('p', .1), P('r', .2), [kind, 'h', prm]],
                    L((bc('a'), ('p', a)), (('p', b), ('h', 'sup_in')),
                      (('h', 'sup_out'), bc('b')),
                      (bc('c'), ('r', c)), (('r', d), ('h', 'dmd_in')),
                      (('h', 'dmd_out'), bc('d'))))
    # flows that change during the run (time series on the pumps)
    for sa in ([0, .2], [.2, 0], [.1, .3]):
        for sb in ([.1, .1], [0, .3], [.3, .05]):
            ser = {'p': sa, 'r': sb}
            base = [['pump', 'p', {}], ['pump', 'r', {}]]
            add(base + [['conn3', 'c', {}], ['pipe', 'q', {}]],
                L((bc('a'), ('p', 'in')), (('p', 'out'), ('c', 'A')),
                  (bc('b'), ('r', 'out')), (('r', 'in'), ('c', 'B')),
                  (('c', 'C'), ('q', 'in')), (('q', 'out'), bc('d'))),
                'series', ser)
            add(base + [['tes', 't', {'new_ports': {'x': [2, 'index']}}],
                        ['valve', 'v', {'opening': .3}]],
                L((bc('a'), ('p', 'in')), (('p', 'out'), ('t', 'in')),
                  (bc('b'), ('r', 'out')), (('r', 'in'), ('t', 'x')),
                  (('t', 'out'), ('v', 'AB')), (('v', 'A'), bc('d')),
                  (('v', 'B'), bc('e'))), 'series', ser)
            add(base + [['branch', 'b', {}]],
                L((bc('a'), ('p', 'in')), (('p', 'out'), ('b', 'in')),
                  (bc('b'), ('r', 'out')), (('r', 'in'), ('b', 'p1')),
                  (('b', 'out'), bc('d'))), 'series', ser)
    return out


TF = 0.05


def warm():
    for c in cases('quick')[::97]:
        try:
            run(c)
        except Exception:
            pass


def run(case):
    r = Result()
    net, mode = case['net'], case['mode']
    ports = {(n, q) for k, n, p in net['parts'] for q in fr.ports_of(k, p)}
    known = fr.propagate(net)
    storage = {n for k, n, p in net['parts'] if k == 'tes'}
    undetermined = {a for a, b in ports - known if a not in storage}
    tf = TF
    live = dict(net)
    if mode == 'series':
        tf = 4.0
        live['parts'] = [
            [k, n, dict(p, start_massflow=float(case['ser'][n][0]),
                        ctrl_required=False,
                        time_series=[[t, case['ser'][n][t >= 2]]
                                     for t in range(9)])]
            if n in case['ser'] else [k, n, p] for k, n, p in net['parts']]
    try:
        s = run_net(live, tf=tf, **({'max_stepsize': .25}
                                    if mode == 'series' else {}))
    except Exception as e:
        msg = '%s: %s' % (type(e).__name__, str(e)[:200].replace('\n', ' '))
        if undetermined:
            r.outcome = 'refused (undetermined)'
            r.nontrivial = False
            r.see(repr(net['links']), 'refused')
            return r
        r.outcome = 'refused'
        r.fail('a determined network is refused: ' + msg, 'refused')
        return r
    r.outcome = 'accepted'
    if undetermined:
        r.fail('accepted although the flow through %s is not determined'
               % sorted(undetermined), 'accepted-undetermined')
        return r
    rows = len(s.time_vec)
    r.transitions += rows - 1
    for row in range(1, rows):
        flows = None
        if mode == 'series':
            flows = {n: float(s.parts[n].res_dm[row].ravel()[0])
                     for n in case['ser']}
            for n, f in flows.items():
                a, b = case['ser'][n]
                if not (min(a, b) - 1e-9 <= f <= max(a, b) + 1e-9):
                    r.fail('pump %s flows %g, outside its series' % (n, f))
        ref = fr.solve(net, flows)
        for kind, n, p in net['parts']:
            got = np.asarray(s.parts[n].res_dm[row]).ravel()
            try:
                exp = fr.cell_flows(kind, p, ref, n, s.parts[n].num_gp)
            except KeyError:
                # storage with undetermined ports: no flow can be claimed
                # unless nothing at all is connected to it
                if not any((n, q) in known for q in fr.ports_of(kind, p)) \
                        and np.abs(got).max() > 0:
                    r.fail('storage %s without a pump has flow %s'
                           % (n, got.tolist()))
                continue
            if kind == 'rawpump':
                got = got[:1]
            if got.shape != exp.shape or \
                    not np.allclose(got, exp, rtol=1e-9, atol=1e-12):
                r.fail('mass flow of %s %r at step %d is %s, balance requires '
                       '%s' % (kind, n, row, got.tolist(), exp.tolist()),
                       'balance')
                return r
            r.see(kind, n, got)
    r.validated = 1
    return r


