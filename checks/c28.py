"""C28: layering of storages - stable layers conduct, inverted ones mix."""
import itertools

import numpy as np

from mc import flowref as fr
from mc.core import Result
from mc.heunref import Heun, buoyancy
from mc.models import P, bc, links
from mc.thermal import simulate

META = dict(
    title='Storage layers: stable layers only conduct, inverted layers mix',
    statement=(
        'In a storage (layer 0 on top) neighbouring layers of which the '
        'upper one is at least as warm exchange heat only by conduction '
        'through water and wall. Where the lower layer is warmer, the '
        'conductivity of the water between exactly these two layers is '
        'multiplied with 20 times the Nusselt number of free convection '
        'over a horizontal plate (VDI heat atlas F2, length d/4, water of '
        'the lower layer, laminar up to Ra f = 7e4 and turbulent above) '
        'wherever that number is at least 1. The exchange conserves '
        'energy, an inverted layering decays without overshooting, and '
        'layers that are stable elsewhere in the same storage are not '
        'affected.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text=(
        'all temperature profiles, sizes and numbers of layers, with and '
        'without flow, every layer and step')),
    why_tests_cant=(
        'the tests contain no inverted storage; the exchange has to be right '
        'for every profile, in each pair of layers and at every stage of '
        'the step'),
    anchors=dict(
        files=['multisim/precomp_funs.py', 'multisim/parts/tes.py'],
        mechanism=[
            dict(name='buoyancy', where='precomp_funs.py:buoyancy_byNusselt'),
            dict(name='storage balance', where='precomp_funs.py:tes_diff'),
            dict(name='size and layers', where='parts/tes.py'),
        ],
        state=[dict(name='layer temperatures', meaning='top to bottom',
                    where='res of the storage')],
        observe_at=['res', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of temperature profiles on the real '
              'code, every step replayed by a reference integrator with an '
              'independent buoyancy model',
    level_note=(
        'All profiles over four levels in four layers for several sizes, at '
        'standstill and with flow in both directions, and longer profiles '
        'over two levels; insulated storages.'),
)
PROPERTY = 'C28'
RULE = ('(size, layers, profile over a level set, flow, direction); every '
        'layer of every row compared with the reference step, tolerance '
        '1e-6 K + 2e-4 of the largest change in the step')
ASSUMPTIONS = ['water properties are the documented polynomials',
               'insulation with 1e-7 W/(m K) is perfect']
BOUNDS = '4 to 7 layers, runs of 20 s'
SIZES = {'std': dict(volume=.2, outer_diameter=.5, shell_thickness=5e-3),
         'flat': dict(volume=.05, outer_diameter=.6, shell_thickness=3e-3),
         'slim': dict(volume=.004, outer_diameter=.09, shell_thickness=2e-3),
         'thin': dict(volume=.0004, outer_diameter=.03, shell_thickness=1e-3),
         'big': dict(volume=5., outer_diameter=1.4, shell_thickness=6e-3)}


def cases(tier):
    out = []
    big = tier == 'thorough'
    sets = [(12., 40., 40.3, 80.)]
    for sz in SIZES:
        for lv in sets + ([(1., 3., 5., 9.), (50., 50.01, 50.2, 51.)]
                          if big or sz in ('std', 'slim') else []):
            for pr in itertools.product(lv, repeat=4):
                out.append(dict(sz=sz, T=pr, f=0., d=1))
    for n in (5, 7) if big else (5,):
        for pr in itertools.product((30., 55.), repeat=n):
            for sz in SIZES if big else ('flat', 'big'):
                out.append(dict(sz=sz, T=pr, f=0., d=1))
    for pr in itertools.product((30., 45., 60.), repeat=4):
        for f in (.01, .05, .3) if big else (.05,):
            for d in (1, -1):
                for sz in SIZES if big else ('std', 'slim'):
                    out.append(dict(sz=sz, T=pr, f=f, d=d))
    return out


def net(case):
    t = dict(SIZES[case['sz']], grid_points=len(case['T']),
             T_init=list(case['T']), insulation_lambda=1e-7)
    a, b = ('in', 'out') if case['d'] > 0 else ('out', 'in')
    return dict(
        parts=[P('p', case['f'], T_init=40., insulation_lambda=1e-7),
               ['tes', 't', t]],
        links=links((bc('a'), ['p', 'in']), (['p', 'out'], ['t', a]),
                    (['t', b], bc('z'))),
        bcs={'BC_a': 65. if case['f'] else 40., 'BC_z': 35.})


def warm():
    run(dict(sz='std', T=(30., 40., 30., 50.), f=.05, d=1))


def run(case):
    r = Result()
    m = net(case)
    s, res, t = simulate(m, 20. if not case['f'] else 4.)
    H, flow = Heun(m, buoyancy), fr.solve(m)
    mix = 0
    for i in range(1, len(t)):
        T = {n: res[n][i - 1] for n in res}
        R, _ = H.step(T, t[i] - t[i - 1], flow, m['bcs'], {})
        r.transitions += 1
        r.validated += len(R['t'])
        mix += (np.diff(T['t']) > 1e-6).any()
        d = np.abs(R['t'] - res['t'][i])
        if not (d <= 1e-6 + 2e-4 * np.abs(R['t'] - T['t']).max()).all():
            c = int(np.argmax(d))
            r.fail('row %d (t=%g): layers %s lead to %.7g in layer %d, '
                   'expected %.7g' % (
                       i, t[i], np.round(T['t'], 3), res['t'][i][c], c,
                       R['t'][c]), 'layer')
            return r
    if not case['f']:
        # at standstill no layer leaves the range of the layers and ports
        x = np.concatenate([res['t'][0], [40., 35.]])
        if res['t'].min() < x.min() - 1e-3 or \
                res['t'].max() > x.max() + 1e-3:
            r.fail('layers reach %g..%g from %s' % (
                res['t'].min(), res['t'].max(), case['T']), 'overshoot')
    r.see(np.round(res['t'], 5))
    r.outcome = ('mixing' if mix else 'stable') + (' with flow' if case['f']
                                                   else '')
    return r
