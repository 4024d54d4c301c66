"""C02: junctions without mass mix and split like the flows do."""
import itertools

import numpy as np

from checks import c01
from checks.c07 import chain3
from mc import flowref as fr
from mc.core import Result
from mc.models import P, bc, links
from mc.nets import run as run_net
from mc.thermal import determined, paint
from mc.thermref import MASSLESS, Balance, cp

META = dict(
    title='Junctions mix inflows by their enthalpy and pass temperatures on',
    statement=(
        'What leaves a three-way connector, a mixing or splitting valve or '
        'a pump carries the mixture of what enters it: the flow-weighted '
        'mean of the temperatures of the parts or open ports the inflows '
        'come from (exact to 0.5 %), which for a single inflow is that '
        'temperature itself. This holds for every combination of flow '
        'directions and rates, including ports without flow, flows that '
        'change or vanish during the run, and junctions joined to each '
        'other. What a junction shows at its other ports lies between the '
        'connected temperatures; at rest a connector or mixing valve shows '
        'the mean of the other two at each port.'),
    quantifier=dict(over=['programs', 'configurations', 'inputs'], text=(
        'all junctions in all networks, all flow directions and rates, all '
        'temperatures, every step')),
    why_tests_cant='no test contains a junction',
    anchors=dict(
        files=['multisim/precomp_funs.py', 'multisim/parts/connector_3w.py',
               'multisim/parts/mixingvalve.py', 'multisim/parts/pump.py'],
        mechanism=[
            dict(name='mixing', where='precomp_funs.py:solve_connector_3w, '
                 'solve_mix, solve_split, solve_pump'),
            dict(name='port values', where='simenv.py:_heun_adaptive, '
                 'precomp_funs.py:_upddate_ports_*'),
        ],
        state=[dict(name='port temperatures', meaning='columns of the '
                    'recorded temperatures', where='res of the junction')],
        observe_at=['res', 'res_dm'],
        hook_needed=None),
    technique='exhaustive enumeration of flow directions, rates, '
              'temperatures and wirings on the real code, against a mixing '
              'reference',
    level_note=('All wirings of C01 with junctions; a junction with every '
                'sign pattern, 3 rates and 4 temperatures per port; varying '
                'flows through zero.'),
)
PROPERTY = 'C02'
RULE = ('(wiring, temperatures) or (port directions, rates, temperatures); '
        'per outflow and row: inside the mixtures of the source rows')
ASSUMPTIONS = ['the port temperature of a row lies between the mixtures of '
               'the source temperatures of this and the previous row (two '
               'previous rows behind another junction)']
BOUNDS = 'one or two junctions, up to 3 pumps'
H = .05


def cases(tier):
    out = []
    for c in c01.cases(tier):
        ks = {k for k, _, _ in c['net']['parts']}
        if c['mode'] == 'const' and ks & MASSLESS and determined(c['net']) \
                and 'hex' not in ks:
            for pat in (('zig', 'up') if len(c['net']['parts']) < 4 else
                        ('zig',)):
                out.append(dict(net=c['net'], pat=pat))
    for io in (('in', 'out'), ('out', 'in')):
        for raw in (False, True):
            for pat in ('zig', 'up', 'down'):
                out.append(dict(net=chain3(*io, raw=raw), pat=pat))
    # one connector, two pumps on two of its ports, all directions and rates
    T = (5., 35., 60., 95.)
    fl = (0., .05, .2) if tier == 'quick' else (0., .002, .05, .2, .9)
    for a, b in itertools.permutations('ABC', 2):
        c = ({'A', 'B', 'C'} - {a, b}).pop()
        for sa, sb in itertools.product((1, -1), repeat=2):
            for fa, fb in itertools.product(fl, repeat=2):
                tt = itertools.product(T, repeat=3) if tier == 'thorough' \
                    else [(5., 60., 95.), (95., 35., 5.), (60., 5., 35.),
                          (35., 95., 60.)]
                for t in tt:
                    out.append(dict(net=star(a, b, c, sa * fa, sb * fb, t)))
    # mixing and splitting valve: all openings, flows, temperatures
    for kind in ('mix', 'split'):
        for o in (0., .1, .5, .9, 1.):
            for f in (.02, .3):
                for t in itertools.permutations((5., 35., 95.)):
                    out.append(dict(net=valve(kind, o, f, t)))
            for t in itertools.permutations((5., 35., 95.)):
                out.append(dict(net=valve(kind, o, 0., t)))
    # flows that change, vanish and return during the run
    lv = (0., .05, .2)
    for wa in itertools.product(lv, repeat=3):
        for wb in ((.1, .1, .1), (.2, 0., .05), (0., .05, .2)):
            for sa, sb in itertools.product((1, -1), repeat=2):
                out.append(dict(net=star('A', 'B', 'C', sa * .1, sb * .1,
                                         (95., 35., 5.)),
                                ser={'p': wa, 'r': wb}))
    return out


def star(a, b, c, fa, fb, t):
    parts, lk = [['conn3', 'c', {}]], []
    for n, port, f, T in (('p', a, fa, t[0]), ('r', b, fb, t[1])):
        i, o = ('in', 'out') if f >= 0 else ('out', 'in')
        parts.append(P(n, abs(f), T_init=T))
        lk += [[bc(n), [n, i]], [[n, o], ['c', port]]]
    parts.append(['pipe', 'q', {'T_init': t[2]}])
    lk += [[['c', c], ['q', 'in']], [['q', 'out'], bc('q')]]
    return dict(parts=parts, links=lk,
                bcs={'BC_p': t[0], 'BC_r': t[1], 'BC_q': t[2]})


def valve(kind, o, f, t):
    i, w = ('in', 'out') if kind == 'mix' else ('out', 'in')
    return dict(
        parts=[P('p', f, T_init=t[2]), ['pipe', 'q', {'T_init': t[0]}],
               ['pipe', 'r', {'T_init': t[1]}],
               ['mixv', 'm', {'port_A_init': o, 'mix_or_split': kind}]],
        links=links((bc('a'), ['q', 'in']), (['q', 'out'], ['m', 'A']),
                    (bc('b'), ['r', 'in']), (['r', 'out'], ['m', 'B']),
                    (['m', 'AB'], ['p', i]), (['p', w], bc('c'))),
        bcs={'BC_a': t[0], 'BC_b': t[1], 'BC_c': t[2]})


def warm():
    for c in (star('A', 'B', 'C', .1, .1, (5., 6., 7.)),
              valve('mix', .5, .1, (5., 6., 7.)),
              valve('split', .5, .1, (5., 6., 7.))):
        run(dict(net=c))
    for c in [c for c in cases('quick') if 'pat' in c][::29]:
        try:
            run(c)
        except Exception:
            pass


def mixture(flows, temps):
    """Reference: enthalpy weighted mixing temperature."""
    w = np.array(flows)
    t = np.array(temps)
    h = (w * cp(t) * t).sum() / w.sum()
    x = (w * t).sum() / w.sum()
    for _ in range(4):
        x = h / cp(x)
    return x


def standing(b, got, n, ports, row, moving):
    """What the ports of a junction show to a neighbour which conducts."""
    far = any(b.link[(n, q)][0] in b.par and
              b.par[b.link[(n, q)][0]][0] in MASSLESS for q in ports)
    rows = range(max(0, row - (2 if far else 1)), row + 1)
    src = {q: [b.source(n, q)[i] for i in rows] for q in ports}
    lo = min(map(min, src.values()))
    hi = max(map(max, src.values()))
    tol = .005 * abs(hi) + 1e-3
    for q in ports:
        x = float(got[row][ports.index(q)])
        if not far and not lo - tol <= x <= hi + tol:
            return '%s shows %.6g at %s, connected are %.6g .. %.6g' % (
                n, x, q, lo, hi)
        if far or moving:
            continue
        other = [src[p] for p in ports if p != q]
        a = sum(map(min, other)) / len(other)
        z = sum(map(max, other)) / len(other)
        if not a - 1e-3 <= x <= z + 1e-3:
            return ('at rest %s shows %.6g at %s, the mean of the others is '
                    '%.6g .. %.6g' % (n, x, q, a, z))
    return None


def run(case):
    r = Result()
    net = paint(case['net'], case['pat']) if 'pat' in case else case['net']
    tf, live = 6 * H, dict(net)
    if 'ser' in case:
        tf = 3.
        live['parts'] = [
            [k, n, dict({a: b for a, b in p.items() if a != 'flow'},
                        start_massflow=float(case['ser'][n][0]),
                        ctrl_required=False,
                        time_series=[[i, case['ser'][n][min(i, 2)]]
                                     for i in range(6)])]
            if n in case['ser'] else [k, n, p] for k, n, p in net['parts']]
    s = run_net(live, tf, max_stepsize=H)
    t = np.array(s.time_vec)
    res = {n: np.array(s.parts[n].res) for k, n, p in net['parts']}
    b = Balance(net, res, t)
    r.transitions += len(t) - 1
    sgn = {n: 1. for k, n, p in net['parts']}
    zero = 1e-12
    for row in range(1, len(t)):
        flow = b.flow
        if 'ser' in case:
            flow = fr.solve(net, {n: float(
                s.parts[n].res_dm[row].ravel()[0]) for n in case['ser']})
        for k, n, p in net['parts']:
            if k not in MASSLESS:
                continue
            ports = fr.ports_of(k, p)
            ins = [q for q in ports if flow[(n, q)] > zero]
            outs = [q for q in ports if flow[(n, q)] < -zero]
            why = standing(b, res[n], n, ports, row, any(
                flow[(n, q)] for q in ports) or p.get('mix_or_split') ==
                'split')
            if why:
                r.fail('row %d: %s' % (row, why), 'standing')
                return r
            if not ins:
                r.validated += 1
                continue
            src = [b.source(n, q) for q in ins]
            back = 1 if all(b.link[(n, q)][0] not in b.par or
                            b.par[b.link[(n, q)][0]][0] not in MASSLESS
                            for q in ins) else 2
            w = [flow[(n, q)] for q in ins]
            lo, hi = np.inf, -np.inf
            for j in itertools.product(range(max(0, row - back), row + 1),
                                       repeat=len(ins)):
                m = mixture(w, [x[i] for x, i in zip(src, j)])
                lo, hi = min(lo, m), max(hi, m)
            tol = (.005 * max(abs(x[row]) for x in src) if len(ins) > 1
                   else 0.) + (hi - lo) + 1e-3
            r.validated += len(outs)
            r.see(k, len(ins), len(outs), round(lo, 6))
            for q in outs:
                got = float(res[n][row][ports.index(q)])
                if not lo - tol <= got <= hi + tol:
                    r.fail('row %d: %.6g leaves %s %r at %s, inflows %s at '
                           '%s mix to %.6g .. %.6g' % (
                               row, got, k, n, q,
                               ['%g' % x for x in w],
                               ['%.6g' % x[row] for x in src], lo, hi),
                           'mixture')
                    return r
    r.outcome = 'series' if 'ser' in case else \
        'wiring' if 'pat' in case else 'star'
    return r
