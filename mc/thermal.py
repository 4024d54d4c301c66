"""Networks of C01 with temperatures: shared by the thermal checks."""
import copy

import numpy as np

from mc import flowref as fr
from mc.nets import run as run_net
from mc.thermref import MASSLESS, ngp

LEVELS = {
    # two interleaved ramps: neighbouring cells always differ, both directions
    'zig': [15., 80., 25., 70., 35., 60., 45., 50., 55., 40., 65., 30., 75.,
            20., 85., 12.],
    'up': [10., 16., 22., 28., 34., 40., 46., 52., 58., 64., 70., 76., 82.,
           88.],
}
LEVELS['down'] = LEVELS['up'][::-1]
QUASI = ('hex',)                     # quasi-stationary part, no cells


def determined(net):
    known = fr.propagate(net)
    return all((n, q) in known for k, n, p in net['parts']
               for q in fr.ports_of(k, p))


def paint(net, pattern, ins=1e-7, tamb=20., uniform=None, **extra):
    """Copy of the net with cell, open port and ambient temperatures."""
    net = copy.deepcopy(net)
    lv = LEVELS.get(pattern, [uniform])
    i = 0
    for k, n, p in net['parts']:
        if k in MASSLESS:
            continue
        p['T_amb'] = tamb
        if k in ('hexnum', 'hex'):
            p['T_init'] = lv[i % len(lv)]
            i += 1
            continue
        m = ngp(k, p)
        p['T_init'] = [lv[(i + j) % len(lv)] for j in range(m)]
        i += m
        p['insulation_lambda'] = ins
        p.update(extra)
    for j, b in enumerate(sorted(net['bcs'])):
        net['bcs'][b] = lv[(i + 5 * j) % len(lv)]
    return net


def simulate(net, tf, **kw):
    s = run_net(net, tf, **kw)
    res = {n: np.array(s.parts[n].res) for k, n, p in net['parts']}
    return s, res, np.array(s.time_vec)


def temps(net):
    """All initial and boundary temperatures of a painted net."""
    t = list(net['bcs'].values())
    for k, n, p in net['parts']:
        if k not in MASSLESS:
            t += list(np.ravel(p['T_init']))
    return t
