"""Reference energy balances of the cells of a network.

Works on the recorded rows only: between two rows a cell stores the energy
that flows, conducted and generated heat bring in.  Flows come from the
Kirchhoff reference (flowref), capacities from the catalogue data, so nothing
but recorded temperatures and times is taken from the implementation.
"""
import os

import numpy as np
import pandas as pd

from mc import flowref as fr
from mc.nets import BASE, ms, hexspec

D = os.path.join(os.path.dirname(ms.__file__), 'data_tables')
PIPES = pd.read_pickle(os.path.join(D, 'pipe_specs.pkl'))
MATS = pd.read_pickle(os.path.join(D, 'material_props.pkl'))
_W = pd.read_pickle(os.path.join(D, 'material_props_water.pkl'))
_T = np.array(_W.columns, dtype=float)
_ROW = {k.split(' ')[0]: np.array(_W.loc[k], dtype=float) for k in _W.index}


def cp(T):
    """Specific heat of water, J/(kg K): interpolated property table."""
    return np.interp(T, _T, _ROW['c_p'])


def rho(T):
    return np.interp(T, _T, _ROW['ρ'])


def lam(T):
    return np.interp(T, _T, _ROW['λ'])


NGP = {'pipe': 3, 'pump': 3, 'valve': 4, 'branch': 4, 'tes': 4, 'heated': 4,
       'hexnum': 4, 'chp': 4}
LEN = {'pipe': 1.0, 'pump': 1.0, 'valve': 1.2, 'branch': 1.2, 'heated': 1.0,
       'chp': 1.0}
MASSLESS = {'conn3', 'mixv', 'rawpump'}


def ngp(kind, p):
    return p.get('grid_points', NGP[kind])


def geometry(kind, p):
    """-> dict of cell volume, wall capacity, areas and spacing."""
    n = ngp(kind, p)
    mat = MATS[p.get('material', 'carbon_steel')]
    if kind == 'tes':
        do, s = p.get('outer_diameter', .5), p.get('shell_thickness', 5e-3)
        di = do - 2 * s
        A = np.pi / 4 * di ** 2
        L = p.get('volume', .2) / A
        aw = np.pi / 4 * (do ** 2 - di ** 2)
        vol = p.get('volume', .2) / n
        wll = np.full(n, aw * L / n)
    else:
        t = PIPES[p.get('ptype', 'EN10255_medium')][p.get('DN', 'DN25')]
        A, aw = float(t['A_i']), float(t['A_wall'])
        L = p.get('length', LEN[kind])
        vol = A * L / n
        shell = np.pi / 4 * (float(t['d_o']) ** 2 - float(t['d_i']) ** 2)
        wll = np.full(n, shell * L / n)
    return dict(n=n, vol=vol, A=A, d=2 * (A / np.pi) ** .5, aw=aw, dx=L / n, lw=mat['lambda'],
                wcap=wll * mat['rho'] * mat['c_p'])


def cell_of(kind, p, port):
    """Cell at which a port sits (index of the recorded temperatures)."""
    if kind in MASSLESS:
        return fr.ports_of(kind, p).index(port)
    n = ngp(kind, p)
    if kind == 'hexnum':
        return {'sup_in': 0, 'sup_out': 3 * (n - 1), 'dmd_in': 3 * n - 1,
                'dmd_out': 2}[port]
    if kind == 'valve':
        return {'A': 0, 'B': p.get('valve_location', 1), 'AB': n - 1}[port]
    if port in ('in', 'out'):
        return 0 if port == 'in' else n - 1
    v, how = fr.extra_ports(kind, p)[port]
    if how == 'index':
        return n - 1 if v == -1 else v
    if how == 'distance':
        x = v / (geometry(kind, p)['dx'] * n)
    else:
        x = v / (geometry(kind, p)['vol'] * n)
    return min(n - 1, int(x * n))


def link_map(net):
    m = {}
    for x, y in net['links']:
        m[tuple(x)] = tuple(y)
        m[tuple(y)] = tuple(x)
    return m


class Balance:
    """Evaluates the reference balance of every cell on recorded rows."""

    def __init__(self, net, res, time, flows=None, openings=None, bc=None):
        self.net = net
        self.res = res                    # part -> (rows, cells)
        self.time = time
        self.link = link_map(net)
        self.par = {n: (k, p) for k, n, p in net['parts']}
        self.flow = fr.solve(net, flows, openings)
        self.bc = bc or {b: np.full(len(time), float(v))
                         for b, v in net['bcs'].items()}

    def source(self, part, port):
        """Temperature (rows,) on the other side of a port."""
        o, q = self.link[(part, port)]
        if o == 'BC':
            return self.bc[q]
        k, p = self.par[o]
        r = self.res[o].reshape(len(self.time), -1)
        return r[:, cell_of(k, p, q)]

    def cells(self, part):
        """-> (stored, gained, scale, change, conducted, uncertain): in W.

        Arrays of (steps, cells); the last two are the heat conducted inside
        the part and the uncertainty of the heat conducted over ports.
        """
        k, p = self.par[part]
        g = geometry(k, p)
        T = self.res[part]
        R, n = T.shape
        gain = np.zeros((R, n))
        scale = np.zeros((R, n))
        cond = np.zeros((R, n))
        pcond = np.zeros((R, n))
        ua = (g['A'] * lam(T[:, :-1]) + g['aw'] * g['lw']) / g['dx']
        inner = np.zeros(n)               # net port inflow per cell
        for q in fr.ports_of(k, p):
            c = cell_of(k, p, q)
            f = self.flow[(part, q)]
            inner[c] += f
            src = self.source(part, q)
            up = src if f > 0 else T[:, c]
            e = f * cp(up) * up
            gain[:, c] += e
            scale[:, c] += np.abs(e)
            # all parts have at least this port: pipe of the same size
            e, w = self.port_conduction(part, q, g, src, T[:, c])
            gain[:, c] += e
            pcond[:, c] += w
        F = np.cumsum(inner)[:-1]         # flow from cell i to i + 1
        for i, f in enumerate(F):
            up = T[:, i] if f > 0 else T[:, i + 1]
            e = f * cp(up) * up
            gain[:, i] -= e
            gain[:, i + 1] += e
            scale[:, i] += np.abs(e)
            scale[:, i + 1] += np.abs(e)
            e = ua[:, i] * (T[:, i] - T[:, i + 1])
            gain[:, i] -= e
            gain[:, i + 1] += e
            cond[:, i:i + 2] += np.abs(e)[:, None]
        cap = g['vol'] * rho(T) * cp(T) + g['wcap']
        h = np.diff(self.time)[:, None]
        store = (cap[1:] + cap[:-1]) / 2 * np.diff(T, axis=0) / h
        gm = (gain[1:] + gain[:-1]) / 2
        return (store, gm, np.maximum(scale[1:], scale[:-1]),
                np.abs(np.diff(gain, axis=0)),
                np.maximum(cond[1:], cond[:-1]),
                np.maximum(pcond[1:], pcond[:-1]))

    def port_conduction(self, part, port, g, src, own):
        """(conducted heat, its uncertainty); exact between equal pipes."""
        o, q = self.link[(part, port)]
        if o == 'BC':
            # an open port is seen as a copy of the cell itself
            ua = (g['A'] * lam(own) + g['aw'] * g['lw']) / g['dx']
            e = ua * (src - own)
            return e, .05 * np.abs(e) if self.par[part][0] != 'tes' \
                else np.abs(e)
        k, p = self.par[o]
        if k in MASSLESS or k in ('hex', 'hexnum', 'tes') or \
                self.par[part][0] == 'tes':
            ua = .15
            return 0. * own, ua * np.abs(src - own)
        g2 = geometry(k, p)
        d = (g['dx'] + g2['dx']) / 2
        e = (g['A'] * lam(own) + g['aw'] * g['lw']) / d * (src - own)
        return e, .05 * np.abs(e)
