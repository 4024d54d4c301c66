"""C26: heat losses to the ambient."""
import itertools

import numpy as np

from mc import flowref as fr
from mc.core import Result
from mc.heunref import Heun, buoyancy
from mc.models import CHP, P, bc, links
from mc.nets import run as run_net
from mc.thermref import PIPES, geometry, rho, cp, lam

META = dict(
    title='Heat losses follow temperature difference and insulation',
    statement=(
        'Every cell of a pipe, pump pipe, valve pipe, branched pipe, heated '
        'pipe, CHP plant or storage exchanges heat with the ambient: out of '
        'cells that are warmer, into cells that are colder, none at equal '
        'temperature. The conductance is that of the cylindrical insulation '
        '(and the lids of a storage) in series with the wall, the transfer '
        'inside and the free convection outside (VDI Waermeatlas); '
        'better insulation and, above the critical radius, more insulation '
        'lowers the losses, more temperature difference raises them, and a finer grid changes neither their sum '
        'nor their distribution. Each cell loses by its own temperature, and only the '
        'top and the bottom layer of a storage lose through the lids.'),
    quantifier=dict(over=['configurations', 'inputs'], text=(
        'all parts, sizes, grids, insulations, temperatures and ambient '
        'temperatures')),
    why_tests_cant='the tests compare one pipe with one insulation to a '
                   'recorded temperature',
    anchors=dict(
        files=['multisim/precomp_funs.py', 'multisim/parts/pipe.py',
               'multisim/parts/tes.py'],
        mechanism=[
            dict(name='conductance', where='precomp_funs.py:'
                 'UA_fld_wll_ins_amb_cyl, UA_fld_wll_ins_amb_plate, '
                 'cylinder_alpha_inf, surface_temp_steady_state_inplace'),
            dict(name='losses', where='dT_cond of all *_diff functions'),
        ],
        state=[dict(name='cell temperatures', meaning='one row per step',
                    where='res')],
        observe_at=['res', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of parts, grids, insulations and '
              'temperatures on the real code, against conductances from '
              'the geometry and metamorphic twins',
    level_note=('7 parts x 5 temperature pairs x 4 thicknesses x 3 '
                'conductivities x 2 pipe sizes x 2 grids; twin runs for '
                'thickness, conductivity, difference and grid; all profiles over '
                'three levels, cell by cell.'),
)
PROPERTY = 'C26'
RULE = '(part, temperatures, insulation, size, grid), with twins'
ASSUMPTIONS = ['still water, uniform temperature: only losses act; '
               'profiles: what an insulated step (C25) does not explain is lost']
BOUNDS = 'single parts'
ALPHA = .7
KINDS = ('pipe', 'pump', 'valve', 'branch', 'heated', 'chp', 'tes')


def cases(tier):
    out = []
    big = tier == 'thorough'
    thick = (.01, .03, .1) if not big else (.005, .01, .03, .06, .1, .2)
    lams = (.02, .04, .1) if not big else (.01, .02, .04, .1, .3)
    for k in KINDS:
        for (T, A), s, l in itertools.product(
                ((60., 20.), (90., -5.), (10., 30.), (25., 20.)), thick,
                lams):
            for dn, n in ((('DN25', 4), ('DN50', 3)) if k != 'tes' else
                          ((.5, 4), (.8, 6))):
                out.append(dict(kind=k, T=T, A=A, s=s, l=l, dn=dn, n=n))
        for T in (5., 20., 71.5):
            out.append(dict(kind=k, T=T, A=T, s=.02, l=.04, n=4,
                            dn='DN25' if k != 'tes' else .5))
    # every cell at its own temperature, still and flowing water
    for k in KINDS:
        for dn, n in ((('DN25', 4), ('DN50', 6)) if k != 'tes' else
                      ((.5, 4), (.8, 6))):
            for pr in itertools.product((35., 50., 70.), repeat=n if big
                                        and n < 6 else 3):
                if len(set(pr)) == 1:
                    continue
                for f in (0.,) if k == 'pump' and not big else (0., .1):
                    pr2 = (pr * n)[:n]
                    if k == 'tes' and not big and f:
                        continue
                    out.append(dict(kind=k, prof=pr2, A=20., s=.03, l=.04,
                                    dn=dn, n=n, f=f))
    return out


def params(kind, T, A, s, l, dn, n):
    p = dict(T_init=T, T_amb=A, insulation_thickness=s, insulation_lambda=l,
             grid_points=n)
    if kind == 'tes':
        p.update(outer_diameter=dn, volume=.3)
    else:
        t, dn = size(dn)
        p.update(DN=dn, ptype=t, length=2.)
    if kind == 'valve':
        p['opening'] = .4
    elif kind == 'heated':
        p['heat'] = 0.
    elif kind == 'chp':
        p = dict(CHP, **p)
        p.update(ctrl_required=False, const_val=0.)
    elif kind == 'pump':
        p['flow'] = 0.  # see net_of
    elif kind == 'branch':
        p['new_ports'] = {'p1': [1, 'index']}
    return p


def net_of(kind, f=0., prof=None, **a):
    p = params(kind, **a)
    if prof is not None:
        p['T_init'] = list(prof)
    perfect = dict(T_init=a['T'], T_amb=a['T'], insulation_lambda=1e-7)
    if kind == 'pump':
        p['flow'] = f
        parts = [['pump', 'q', p]]
        lk = [(bc('a'), ['q', 'in']), (['q', 'out'], bc('z'))]
    else:
        q = fr.ports_of(kind, p)
        parts = [P('p', f, **perfect), [kind, 'q', p]]
        lk = [(bc('a'), ['p', 'in']), (['p', 'out'], ['q', q[0]])]
        rest = list(q[1:])
        if kind == 'branch':
            parts.append(P('r', 0., **perfect))
            lk += [(['q', 'p1'], ['r', 'in']), (['r', 'out'], bc('r'))]
            rest.remove('p1')
        lk += [(['q', x], bc(x)) for x in rest]
    lk = links(*lk)
    return dict(parts=parts, links=lk, bcs={
        e[1]: a['T'] for x in lk for e in x if e[0] == 'BC'}), p


def warm():
    for k in KINDS:
        conductances(k, T=60., A=20., s=.02, l=.04, n=4,
                     dn='DN25' if k != 'tes' else .5)


def conductances(kind, **a):
    """-> W/K of every cell to the ambient (W when at ambient)."""
    net, p = net_of(kind, **a)
    s = run_net(net, 30., max_stepsize=3.)
    t = np.array(s.time_vec)
    T = np.array(s.parts['q'].res)
    g = geometry(kind, p)
    cap = g['vol'] * rho(T[-1]) * cp(T[-1]) + g['wcap']
    i = max(2, len(t) // 2)
    q = -cap * (T[-1] - T[i]) / (t[-1] - t[i])
    d = (T[-1] + T[i]) / 2 - a['A']
    return (q / d if a['T'] != a['A'] else q), T, len(t)


def size(dn):
    return dn.split('/') if '/' in dn else ('EN10255_medium', dn)


def pipe(dn):
    t, dn = size(dn)
    return PIPES[t][dn]


def radius(kind, dn, n):
    """-> outer radius of the part and length of a cell."""
    if kind == 'tes':
        return dn / 2, .3 / (np.pi / 4 * (dn - .01) ** 2) / n
    return float(pipe(dn)['d_o']) / 2, 2. / n


def reference(kind, T, A, s, l, dn, n, height=None, nu=3.66,
              surface=False):
    """Conductance of a cell of a shell with still water inside: VDI
    Waermeatlas G1 (laminar, no flow), F2.1 / F2.4.1 (free convection),
    cylindrical layers; the surface temperature by iteration."""
    ro, L = radius(kind, dn, n)
    ri = (dn - .01) / 2 if kind == 'tes' else \
        float(pipe(dn)['d_i']) / 2
    rt = ro + s
    film = nu * lam(T) / (2 * ri) * 2 * np.pi * ri * L
    layers = 1 / film + (np.log(ro / ri) / 55. + np.log(rt / ro) / l) / (
        2 * np.pi * L)
    outer = 2 * np.pi * rt * L
    x = np.pi * rt if height is None else height * L
    al = 5.
    for _ in range(300):
        ua = 1 / (layers + 1 / (al * outer))
        Ts = A + (T - A) * ua / (al * outer)
        m = (A + Ts) / 2
        ny = 1.35e-5 + 8.881e-8 * m + 1.0974e-10 * m ** 2
        la = .0243587 + 7.6534e-5 * m - 4.21e-8 * m ** 2
        Ra = abs(Ts - A) * 9.81 * x ** 3 * .708 / ((A + 273.15) * ny ** 2)
        if height is None:
            Nu = (.752 + .387 * (Ra * .32692) ** (1 / 6)) ** 2
        else:
            Nu = (.825 + .387 * (Ra * .3466) ** (1 / 6)) ** 2 + \
                .435 * x / (2 * rt)
        al = Nu * la / x
    return (ua, Ts) if surface else ua


def lid(top, T, A, s, l, dn, n, nu=3.66):
    """Conductance of the top or bottom lid of a storage: VDI Waermeatlas
    F2.3.1 / F2.3.2 outside (surface as warm as the shell next to it), 5 mm
    of steel, insulation, film inside."""
    _, Ts = reference('tes', T, A, s, l, dn, n, height=1, surface=True)
    m = (A + Ts) / 2
    ny = 1.35e-5 + 8.881e-8 * m + 1.0974e-10 * m ** 2
    la = .0243587 + 7.6534e-5 * m - 4.21e-8 * m ** 2
    x = (dn / 2 + s) * 2 / 4
    Ra = abs(Ts - A) * 9.81 * x ** 3 * .708 / ((A + 273.15) * ny ** 2)
    if top == (Ts >= A):
        Ra *= .40306
        Nu = .766 * Ra ** .2 if Ra <= 7e4 else .15 * Ra ** (1 / 3)
    else:
        Nu = .6 * (Ra * .3466) ** .2
    d = dn - .01
    return np.pi / 4 * d ** 2 / (d / nu / lam(T) + .005 / 55. + s / l
                                 + x / Nu / la)


def insulation(kind, s, l, dn, n, **_):
    """Conductance of the insulation alone, per cell."""
    ro, L = radius(kind, dn, n)
    ua = np.full(n, 2 * np.pi * L * l / np.log((ro + s) / ro))
    if kind == 'tes':
        ua[[0, -1]] += np.pi / 4 * (dn + s) ** 2 * l / s
    return ua


def profile(case):
    """Losses of each cell as the difference to an insulated step."""
    r = Result()
    k = case['kind']
    a = {x: case[x] for x in ('A', 's', 'l', 'dn', 'n')}
    net, p = net_of(k, f=case['f'], prof=case['prof'], T=45., **a)
    s = run_net(net, 6., max_stepsize=.3)
    t = np.array(s.time_vec)
    res = {n: np.array(s.parts[n].res) for _, n, _ in net['parts']}
    H, flow = Heun(net, buoyancy), fr.solve(net)
    g = geometry(k, p)
    for i in range(max(2, len(t) // 2), len(t)):
        T = {n: res[n][i - 1] for n in res}
        h = t[i] - t[i - 1]
        R, _ = H.step(T, h, flow, net['bcs'], {})
        x = (T['q'] + R['q']) / 2
        ua = (R['q'] - res['q'][i]) * (g['vol'] * rho(x) * cp(x)
                                       + g['wcap']) / h / (x - case['A'])
        r.transitions += 1
        r.validated += len(ua)
        for c in range(case['n']):
            film = 3.66 if case['f'] == 0. else 1e9
            hts = (1, case['n']) if k == 'tes' else (None,)
            w = .12 if k == 'tes' else .02
            lo = (1 - w) * min(reference(k, T=x[c], height=y, **a) for y in hts)
            hi = (1 + w) * max(reference(k, T=x[c], height=y, nu=film, **a)
                            for y in hts)
            if k == 'tes' and c in (0, case['n'] - 1):
                x1 = lid(c == 0, T=x[c], **a)
                lo += (1 - w) * x1
                hi += (1 + w) * lid(c == 0, T=x[c], nu=film, **a)
            if not lo <= ua[c] <= hi:
                r.fail('row %d cell %d at %.5g loses %.5g W/K, expected '
                       '%.5g to %.5g' % (i, c, x[c], ua[c], lo, hi),
                       'profile')
                return r
    r.see(k, np.round(res['q'], 6))
    r.outcome = 'profile'
    return r


def run(case):
    if 'prof' in case:
        return profile(case)
    r = Result()
    k = case['kind']
    a = {x: case[x] for x in ('T', 'A', 's', 'l', 'dn', 'n')}
    ua, T, rows = conductances(k, **a)
    r.transitions += rows - 1
    r.validated += 1
    r.see(k, np.round(ua, 9))
    if case['T'] == case['A']:
        r.outcome = 'equal'
        if np.abs(T - case['T']).max() > 1e-7:
            r.fail('at ambient temperature %g, but changes to %.9g' % (
                case['T'], T.flat[np.abs(T - case['T']).argmax()]), 'equal')
        return r
    ins = insulation(k, **a)
    ro, _ = radius(k, case['dn'], case['n'])
    if k == 'tes':  # inverted layers mix: only the sum is known
        shell = [case['n'] * reference(k, height=h, **a)
                 for h in (1, case['n'])]
        both = lid(True, **a) + lid(False, **a)
        lo = np.array([.985 * (min(shell) + both)])
        hi = np.array([1.015 * (max(shell) + both)])
        ins, ua = (np.array([x.sum()]) for x in (ins, ua))
    else:
        lo = np.full(case['n'], .99 * reference(k, **a))
        hi = lo * 1.01 / .99
    if (ua < lo).any() or (ua > hi).any():
        i = int(np.argmax((ua < lo) | (ua > hi)))
        r.fail('cell %d loses %.5g W/K, insulation alone %.5g W/K' % (
            i, ua[i], ins[i]) + ', expected %.5g to %.5g' % (lo[i], hi[i]),
            'conductance')
        return r
    if np.ptp(ua) > .01 * ua.mean():
        r.fail('equal cells lose %s W/K' % ua, 'cells')
    q = ua * (case['T'] - case['A'])
    for what, twin, test in (
            ('thicker insulation', dict(s=case['s'] * 1.5),
             lambda u, v: ro + case['s'] < case['l'] / ALPHA or
             (v < .998 * u).all()),
            ('better insulation', dict(l=case['l'] * .7),
             lambda u, v: (v < .97 * u).all()),
            ('larger difference', dict(T=case['T'] + (
                8 if case['T'] > case['A'] else -8)),
             lambda u, v: (np.abs(v * (twin['T'] - case['A'])) >
                           1.01 * np.abs(q)).all()),
            ('finer grid', dict(n=2 * case['n']),
             lambda u, v: abs(v.sum() / u.sum() - 1) < (
                 .01 if k != 'tes' else .08))):
        u2, T2, rows = conductances(k, **dict(a, **twin))
        if k == 'tes':
            u2 = np.array([u2.sum()])
        r.transitions += rows - 1
        r.validated += 1
        if not test(ua, u2):
            r.fail('%s: from %s to %s W/K' % (what, ua, u2),
                   what.split()[1])
            return r
    r.outcome = k
    return r
