"""Reference integrator: one Heun step of all cells of an insulated network.

Independent of the implementation: cell balances are written per cell pair and
port from catalogue geometry, flows come from the Kirchhoff reference, water
properties are the documented polynomials.  `step` advances a full set of cell
temperatures; parts without mass are not supported.
"""
import numpy as np
from numpy.polynomial.polynomial import polyval

from mc import flowref as fr
from mc.thermref import PIPES, cell_of, geometry, link_map

_RHO = (999.88785713136213, 4.9604454990529602e-02, -7.4722666453460717e-03,
        4.1094484438154484e-05, -1.2915789546323614e-07)
_CP = (4215.4023574179992, -2.8853943283519348, 7.490580684801168e-02,
       -7.7807143441700321e-04, 3.2109328970410432e-06)
_LAM = (5.6987912853229539e-01, 1.7878370402545738e-03,
        -5.9998217273879795e-06, -8.6964577115093407e-09)


def rho(T):
    return polyval(T, _RHO)


def cp(T):
    return polyval(T, _CP)


def lam(T):
    return polyval(T, _LAM)


_NY = (1.7764473380494155e-06, -5.5640275781265404e-08,
       1.0243072887494426e-09, -9.7954460136981165e-12,
       3.6460468745062724e-14)
_PR = (12.5780108199379058, -0.35124680571767508, 4.3225480444706085e-03,
       -1.9174193923188898e-05)
_BETA = (-5.87985364766666e-05, 1.5641955219950547e-05,
         -1.3587684743777981e-07, 6.1220503308149086e-10)


def buoyancy(t, g):
    """Factor on the conductivity between the layers of a storage.

    Layer 0 is on top.  Where the layer below is warmer, free convection over
    a horizontal plate (VDI heat atlas F2 3.1, length d/4, water of the lower
    layer), enlarged by 20; elsewhere 1.
    """
    dt = np.maximum(t[1:] - t[:-1], 0)
    low = t[1:]
    pr, be = polyval(low, _PR), np.abs(polyval(low, _BETA))
    ra = pr * 9.81 * (g['d'] / 4) ** 3 * be * dt / polyval(low, _NY) ** 2
    ra = ra * (1 + (.322 / pr) ** (11 / 20)) ** (-20 / 11)
    nu = np.where(ra > 7e4, .15 * ra ** (1 / 3), .766 * ra ** .2)
    return np.where(nu >= 1, 20 * nu, 1.)


class Heun:
    """Right-hand side and Heun step for the cells of a network."""

    def __init__(self, net, buoyancy=None):
        self.net = net
        self.par = {n: (k, p) for k, n, p in net['parts']}
        self.geo = {n: geometry(k, p) for k, n, p in net['parts']}
        self.link = link_map(net)
        self.buoy = buoyancy

    def rhs(self, T, flow, bc, heat):
        """dT/dt of all cells; T: part -> cells, heat: part -> W per cell."""
        out = {}
        for n, (k, p) in self.par.items():
            g, t = self.geo[n], T[n]
            mcp = g['vol'] * rho(t) * cp(t) + g['wcap']
            u = cp(t) * t
            q = np.zeros(len(t))
            if n in heat:
                q += heat[n]
            a, b = lam(t[:-1]), lam(t[1:])
            lm = 2 * a * b / (a + b)
            if k == 'tes' and self.buoy is not None:
                lm = lm * self.buoy(t, g)
            ua = g['A'] * lm / g['dx'] + g['aw'] * g['lw'] / g['dx']
            e = ua * (t[1:] - t[:-1])
            q[:-1] += e
            q[1:] -= e
            net_in = np.zeros(len(t))
            for port in fr.ports_of(k, p):
                c = cell_of(k, p, port)
                f = flow[(n, port)]
                net_in[c] += f
                o, po = self.link[(n, port)]
                if o == 'BC':
                    src, g2 = bc[po], g
                else:
                    k2, p2 = self.par[o]
                    src = T[o][cell_of(k2, p2, po)]
                    g2 = self.geo[o]
                if f > 0:
                    q[c] += f * (cp(src) * src - u[c])
                uap = ((self.port_area(n, port, 'A')
                        + self.port_area(o, po, 'A', n)) / 2
                       / (g2['dx'] / 2 / lam(src) + g['dx'] / 2 / lam(t[c]))
                       + (self.port_area(n, port, 'aw')
                          + self.port_area(o, po, 'aw', n)) / 2
                       / (g2['dx'] / 2 / g2['lw'] + g['dx'] / 2 / g['lw']))
                q[c] += uap * (src - t[c])
            F = np.cumsum(net_in)[:-1]
            up = np.maximum(F, 0)
            q[1:] += up * (u[:-1] - u[1:])
            dn = np.maximum(-F, 0)
            q[:-1] += dn * (u[1:] - u[:-1])
            out[n] = q / mcp
        return out

    def port_area(self, n, port, what, other=None):
        if n == 'BC':
            n = other
        k, p = self.par[n]
        if k == 'tes':               # ports of a storage are pipe sockets
            t = PIPES[p.get('ptype', 'EN10255_medium')][p.get('DN', 'DN25')]
            return float(t['A_i' if what == 'A' else 'A_wall'])
        return self.geo[n][what]

    def step(self, T, h, flow, bc, heat):
        d0 = self.rhs(T, flow, bc, heat)
        P = {n: T[n] + h * d0[n] for n in T}
        d1 = self.rhs(P, flow, bc, heat)
        return {n: T[n] + h / 2 * (d0[n] + d1[n]) for n in T}, P
