"""C27: no step is accepted with an error estimate above the tolerance."""
import itertools

import numpy as np

from checks import c25
from mc.core import Result
from mc.thermal import paint, simulate

META = dict(
    title='Accepted steps keep the estimated truncation error within tolerance',
    statement=(
        'In every accepted step the estimated truncation error - root mean '
        'square over the cells of all pipe-like parts and storages of the '
        'difference between the Heun result and the Euler prediction, each '
        'relative to rtol * max(old, new temperature) + atol - is below 1, '
        'for the rtol and atol the user set, in every part of the network '
        'whatever the order of parts. Only at min_stepsize may a larger '
        'error be accepted.'),
    quantifier=dict(over=['configurations', 'histories', 'inputs'], text=(
        'all tolerances and step settings, networks and flow histories; '
        'every accepted step')),
    why_tests_cant=(
        'the error is not visible in results that are merely plausible; the '
        'bound has to hold at each of the thousands of steps of every run'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/precomp_funs.py'],
        mechanism=[
            dict(name='error estimate', where='precomp_funs.py:'
                 '_heun_corrector_adapt'),
            dict(name='acceptance', where='simenv.py:_heun_adaptive'),
            dict(name='number of cells', where='simenv.py:add_part'),
        ],
        state=[dict(name='error sum', meaning='accumulated over parts',
                    where='err in _heun_adaptive')],
        observe_at=['res', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of tolerances, step settings and flow '
              'histories on the real code; error of every accepted step '
              'recomputed by a reference integrator',
    level_note=(
        'Full product of rtol, atol, growth and minimum step settings over '
        'networks of every part kind with switching flows; the reference '
        'integrator is that of C25, which replays the same steps exactly.'),
)
PROPERTY = 'C27'
RULE = ('(part kind, pattern, flow word, rtol, atol, step settings); error '
        'estimate recomputed for every row')
ASSUMPTIONS = c25.ASSUMPTIONS
BOUNDS = 'networks of up to 5 parts, runs of 3 s'


def cases(tier):
    out = []
    big = tier == 'thorough'
    words = ([(.15, .06), (.06, .15)], [(0., .06), (.15, 0.)],
             [(0., 0.), (.15, .15)])
    pats = ('zig', 'up', 'down') if big else ('zig', 'up')
    for kind in c25.KINDS:
        for w in words if big else words[:2]:
            for pat in pats:
                for st in ({}, dict(max_factor=5., factor_recovery=1),
                           dict(safety_factor=.99, max_factor=3.,
                                min_factor=.6), dict(min_stepsize=.04)):
                    tols = [dict(rtol=x, atol=y) for x, y in
                            itertools.product((1e-2, 1e-3, 1e-4, 1e-5),
                                              (1e-2, 1e-4, 1e-6))]
                    tols += [{}, dict(rtol=1e-5), dict(atol=1e-2)]
                    out.append(dict(kind=kind, w=w, pat=pat, st=st,
                                    tols=tols))
    return out


def warm():
    c25.warm()


def run(case):
    r = Result()
    seen = set()
    for tl in case['tols']:
        net = paint(c25.rig(case['kind'], 0, case['w'], 1., 0), case['pat'])
        kw = dict(case['st'], **tl)
        rt, at = kw.get('rtol', 1e-3), kw.get('atol', 1e-6)
        mn = kw.get('min_stepsize', 1e-8)
        s, res, t = simulate(net, 2.5, **kw)
        big = 0.
        forced = 0

        def check(i, T, R, Pr):
            nonlocal big, forced
            e, n = 0., 0
            for p in T:
                new = res[p][i]
                e += (((new - Pr[p]) / (np.maximum(T[p], new) * rt + at))
                      ** 2).sum()
                n += new.size
            e = (e / n) ** .5
            h = t[i] - t[i - 1]
            if h <= mn * (1 + 1e-9) + 1e-12:
                forced += 1
                return
            big = max(big, e)
            if e > 1.001 and not r.viol:
                r.fail('step %d (t=%g, %g s) was accepted with %.4g times '
                       'the tolerated error (rtol %g, atol %g)' % (
                           i, t[i], h, e, rt, at), 'error')

        c25.replay(r, net, s, res, t, check)
        # a row that is no Heun step at all is reported by C25
        r.viol = [v for v in r.viol if v[0] == 'error']
        if r.viol:
            return r
        r.see(np.round(t, 9))
        seen.add('forced' if forced else 'near the limit' if big > .5
                 else 'free')
    r.outcome = ', '.join(sorted(seen))
    return r
