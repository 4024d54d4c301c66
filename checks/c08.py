"""C08: every cell keeps its energy balance in every step."""
import numpy as np

from checks import c01
from mc import flowref as fr
from mc.core import Result
from mc.thermal import determined, paint, simulate
from mc.thermref import MASSLESS, Balance

META = dict(
    title='Energy is conserved in every cell, part and network at every step',
    statement=(
        'In every time step the energy stored in each cell of a pipe, pump '
        'pipe, valve pipe, branched pipe, heated pipe or storage (water and '
        'wall) changes by what the mass flows carry in from the cell or '
        'port upstream, minus what they carry out, plus heat conducted from '
        'the neighbouring cells and heat added; with perfect insulation '
        'nothing else changes it. Water enters from the part or open port '
        'that the flow comes from, whichever way the ports are joined and '
        'in whichever direction the flow passes. A closed insulated network keeps its total energy.'),
    quantifier=dict(over=['programs', 'configurations', 'inputs'], text=(
        'all networks, wirings, flow directions and temperatures, every '
        'cell and step')),
    why_tests_cant=(
        'a test pins a few final temperatures of one open pipe; the balance '
        'must hold cell by cell for every wiring and flow direction'),
    anchors=dict(
        files=['multisim/precomp_funs.py', 'multisim/simenv.py',
               'multisim/parts/pipe.py', 'multisim/parts/tes.py',
               'multisim/parts/heated_pipe.py'],
        mechanism=[
            dict(name='cell balance', where='precomp_funs.py:pipe1D_diff, '
                 'pipe1D_branched_diff, tes_diff, heated_pipe1D_diff'),
            dict(name='flow to cells', where='precomp_funs.py:'
                 '_process_flow_invar/_var/_multi_flow'),
            dict(name='port temperatures', where='precomp_funs.py:'
                 '_process_ports_collapsed, _upddate_ports_*'),
        ],
        state=[dict(name='cell temperatures', meaning='one row per step',
                    where='res of each part')],
        observe_at=['res', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of wirings, run on the real code, '
              'against an independent cell energy balance',
    level_note=(
        'All wirings of C01 with non-uniform temperatures, 5 small steps '
        'each, cell by cell; closed loops over longer runs. Material data '
        'of the reference: interpolated tables (0.1 % of the fitted '
        'polynomials), so deviations below about 0.2 % of the enthalpy flow '
        'are not seen.'),
)
PROPERTY = 'C08'
RULE = ('(wiring, flows, openings) of C01 x temperature pattern; per cell '
        'and step: |stored - gained| within 0.2 % of the enthalpy flows')
ASSUMPTIONS = ['insulation with 1e-7 W/(m K) is perfect',
               'two rows of a small step are a trapezoidal quadrature']
BOUNDS = 'networks of up to 4 parts'
H = 0.02


def cases(tier):
    out = []
    for i, c in enumerate(c01.cases(tier)):
        if c['mode'] != 'const' or not determined(c['net']) or \
                any(k[:3] == 'hex' for k, _, _ in c['net']['parts']):
            continue
        pats = ('zig', 'up', 'down') if tier == 'thorough' else \
            ('zig',) if len(c['net']['parts']) > 2 else ('zig', 'up', 'down')
        for pat in pats:
            out.append(dict(net=c['net'], pat=pat))
    # still water: conduction alone
    for kind in ('pipe', 'branch', 'tes', 'valve'):
        for pat in ('up', 'down'):
            for n in (3, 6):
                p = dict(grid_points=n)
                q = fr.ports_of(kind, p)
                parts = [['pump', 'p', {'flow': 0.}], [kind, 'q', p],
                         ['pump', 'r', {'flow': 0.}]]
                if kind == 'valve':
                    p['opening'] = .3
                links = [[['p', 'out'], ['q', q[0]]],
                         [['BC', 'BC_a'], ['p', 'in']]]
                links += [[['BC', 'BC_%d' % i], ['q', b]]
                          for i, b in enumerate(q[2:])]
                links += [[['q', q[1]], ['r', 'in']],
                          [['r', 'out'], ['BC', 'BC_z']]]
                if kind == 'pipe':
                    parts.pop()
                    links[-2:] = [[['q', 'out'], ['BC', 'BC_z']]]
                if kind == 'valve':
                    parts = parts[:2]
                    links = [[['p', 'out'], ['q', 'A']],
                             [['BC', 'BC_a'], ['p', 'in']],
                             [['BC', 'BC_b'], ['q', 'B']],
                             [['BC', 'BC_z'], ['q', 'AB']]]
                out.append(dict(net=dict(
                    parts=parts, links=links,
                    bcs={l[1]: 20. for x in links for l in x
                         if l[0] == 'BC'}), pat=pat))
    # closed circuits over a longer time
    for f in (.05, .3):
        for d in (1, -1):
            for kinds in (('pipe',), ('tes',), ('heated', 'tes'),
                          ('pipe', 'tes', 'pipe')):
                for pat in ('zig', 'up'):
                    out.append(dict(net=ring(kinds, f, d), pat=pat, tf=4.))
    return out


def ring(kinds, f, d):
    parts = [['pump', 'p', {'flow': f}]]
    names = ['p']
    for i, k in enumerate(kinds):
        parts.append([k, 'x%d' % i,
                      {'heat': 2000.} if k == 'heated' else {}])
        names.append('x%d' % i)
    links = []
    for a, b in zip(names, names[1:] + names[:1]):
        x, y = ('out', 'in')
        if a != 'p' and d < 0:
            x = 'in'
        if b != 'p' and d < 0:
            y = 'out'
        links.append([[a, x], [b, y]])
    return dict(parts=parts, links=links, bcs={})


def merge(T, *arrays):
    """Sum up cells that exchange heat by buoyancy (warm below cold)."""
    out = [np.zeros_like(a) for a in arrays]
    for k in range(T.shape[0] - 1):
        g = 0
        for i in range(T.shape[1]):
            if i and min(T[k, i - 1] - T[k, i],
                         T[k + 1, i - 1] - T[k + 1, i]) > 1e-3:
                g = i
            for o, a in zip(out, arrays):
                o[k, g] += a[k, i]
    return out


def warm():
    seen = set()
    for c in cases('quick'):
        k = tuple(sorted(x[0] for x in c['net']['parts']))
        if not set(k) <= seen:
            seen |= set(k)
            try:
                run(c)
            except Exception:
                pass


def run(case):
    r = Result()
    net = paint(case['net'], case['pat'])
    tf = case.get('tf', 5 * H)
    s, res, t = simulate(net, tf, max_stepsize=H)
    b = Balance(net, res, t)
    r.transitions += len(t) - 1
    total, tscale, heat = 0., 0., 0.
    for k, n, p in net['parts']:
        if k in MASSLESS:
            continue
        store, gain, scale, dg, cond, pc = b.cells(n)
        if k == 'heated':          # recorded heat rate, spread over all cells
            q = np.array(s.parts[n].res_dQ)[1:, :1]
            gain = gain + q / store.shape[1]
            heat += q[:, 0]
        fed = any(b.link[(n, q)][0] in b.par and
                  b.par[b.link[(n, q)][0]][0] in MASSLESS
                  for q in fr.ports_of(k, p))
        tol = (2e-3 * scale + (.7 if fed else .12) * dg + .02 * cond
               + 1.0 * pc + 1e-3)
        if k == 'tes':
            # warm water below cold water mixes by buoyancy
            store, gain, tol = merge(res[n], store, gain,
                                     tol + 2e-3 * np.abs(store))
        total += store.sum(axis=1)
        tscale += np.abs(scale).sum(axis=1)
        bad = np.abs(store - gain) > tol
        r.see(k, n, np.round(store, 3))
        r.validated += store.size
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            r.fail('%s %r cell %s step %d (t=%g): stored %.6g W, gained '
                   '%.6g W (tolerance %.3g)' % (
                       k, n, i[1:], i[0] + 1, t[i[0] + 1], store[i], gain[i],
                       tol[i]), 'cell')
            return r
    if not net['bcs']:
        err = abs(np.sum((total - heat) * np.diff(t)) / (t[-1] - t[0]))
        if err > 2e-3 * np.mean(tscale):
            r.fail('closed insulated network gains %.4g W' % err, 'closed')
    r.outcome = 'ok'
    return r
