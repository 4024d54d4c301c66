"""Reference model of the hydraulics: Kirchhoff on the port graph.

Independent of the implementation's topology walk: unknowns are the signed
port flows (positive: into the part), equations are link continuity, part
continuity, pump flow and valve split; solved as a linear system.
"""
import numpy as np

TWO = {'pipe', 'heated', 'pump', 'rawpump', 'chp'}


def ports_of(kind, p):
    if kind in TWO:
        return ['in', 'out']
    if kind in ('valve', 'mixv'):
        return ['A', 'B', 'AB']
    if kind == 'conn3':
        return ['A', 'B', 'C']
    if kind in ('hexnum', 'hex'):
        return ['sup_in', 'sup_out', 'dmd_in', 'dmd_out']
    if kind in ('branch', 'tes'):
        return ['in', 'out'] + list(extra_ports(kind, p))
    raise KeyError(kind)


def extra_ports(kind, p):
    d = {'p1': [2, 'index']} if kind == 'branch' else {}
    d = p.get('new_ports', d) or {}
    return d


def groups(kind, p):
    """Port groups whose inflows sum to zero."""
    if kind in ('hexnum', 'hex'):
        return [['sup_in', 'sup_out'], ['dmd_in', 'dmd_out']]
    return [ports_of(kind, p)]


def solve(net, flows=None, openings=None):
    """-> {(part, port): inflow} for determined ports; None if inconsistent.

    flows/openings override the constant pump flows / valve openings.
    """
    flows = flows or {}
    openings = openings or {}
    idx = {}
    for kind, name, p in net['parts']:
        for q in ports_of(kind, p):
            idx[(name, q)] = len(idx)
    n = len(idx)
    rows, rhs = [], []

    def eq(terms, b=0.0):
        r = np.zeros(n)
        for k, c in terms:
            r[idx[k]] += c
        rows.append(r)
        rhs.append(b)

    for (a, b), (c, d) in net['links']:
        if a != 'BC' and c != 'BC':
            eq([((a, b), 1.0), ((c, d), 1.0)])
    for kind, name, p in net['parts']:
        for g in groups(kind, p):
            eq([((name, q), 1.0) for q in g])
        if kind in ('pump', 'rawpump'):
            eq([((name, 'in'), 1.0)], flows.get(name, p.get('flow')))
        if kind in ('valve', 'mixv'):
            o = openings.get(name, p.get('opening', p.get('port_A_init')))
            eq([((name, 'A'), 1.0), ((name, 'AB'), o)])
            eq([((name, 'B'), 1.0), ((name, 'AB'), 1 - o)])
    A, b = np.array(rows), np.array(rhs)
    x, _, rank, _ = np.linalg.lstsq(A, b, rcond=None)
    if np.abs(A @ x - b).max() > 1e-9:
        return None
    # determined unknowns: null-space component is zero
    _, s, vt = np.linalg.svd(A)
    null = vt[int((s > 1e-10).sum()):]
    det = np.abs(null).max(axis=0) < 1e-9 if len(null) else \
        np.ones(n, dtype=bool)
    return {k: float(x[i]) for k, i in idx.items() if det[i]}


def propagate(net):
    """Can all flows be found by walking outwards from the pumps?

    -> (solved ports, conflict) using zero/non-zero-independent rules: a valve
    is solved from any one port, an n-port junction from n-1 ports.
    """
    link = {}
    for x, y in net['links']:
        link[tuple(x)] = tuple(y)
        link[tuple(y)] = tuple(x)
    known, conflict = set(), False
    for kind, name, p in net['parts']:
        if kind in ('pump', 'rawpump'):
            known |= {(name, 'in'), (name, 'out')}
    change = True
    while change:
        change = False
        for k in list(known):
            o = link[k]
            if o[0] != 'BC' and o not in known:
                known.add(o)
                change = True
        for kind, name, p in net['parts']:
            for g in groups(kind, p):
                g = [(name, q) for q in g]
                kn = [q for q in g if q in known]
                need = 1 if kind in ('valve', 'mixv') else len(g) - 1
                if need <= len(kn) < len(g):
                    known |= set(g)
                    change = True
    return known


def cell_flows(kind, p, f, name, n):
    """Expected recorded mass flow row of a part from its port flows."""
    if kind in TWO:
        return np.array([f[(name, 'in')]])
    if kind == 'valve':
        loc = p.get('valve_location', 1)
        pos = [('A', 0), ('B', loc), ('AB', n - 1)]
    elif kind in ('branch', 'tes'):
        pos = [('in', 0), ('out', n - 1)]
        pos += [(q, port_cell(v, p, n)) for q, v in
                extra_ports(kind, p).items()]
    elif kind == 'conn3':
        return np.array([f[(name, q)] for q in 'ABC'])
    elif kind == 'mixv':
        sg = 1 if p.get('mix_or_split', 'mix') == 'mix' else -1
        return np.array([sg * f[(name, 'A')], sg * f[(name, 'B')],
                         -sg * f[(name, 'AB')]])
    elif kind == 'hexnum':
        s = -1 if p.get('flow_type', 'counter') == 'counter' else 1
        return np.array([f[(name, 'sup_in')], s * f[(name, 'dmd_in')]])
    elif kind == 'hex':
        return np.array([f[(name, 'sup_in')], f[(name, 'dmd_in')]])
    else:
        raise KeyError(kind)
    d = np.zeros(n)
    for q, c in pos:
        d[c:] += f[(name, q)]
    d[-1] = d[-2]
    return d


def port_cell(v, p, n):
    if v[1] == 'index':
        return int(v[0])
    raise KeyError(v)


def matchings(ports):
    """All ways to pair ports with one another or leave them open."""
    if not ports:
        yield []
        return
    a, rest = ports[0], ports[1:]
    for m in matchings(rest):
        yield [(a, None)] + m
    for i, b in enumerate(rest):
        for m in matchings(rest[:i] + rest[i + 1:]):
            yield [(a, b)] + m


def wire(parts, m, temp=lambda k: 20.0):
    links, bcs = [], {}
    for a, b in m:
        if b is None:
            nm = 'BC_%s_%s' % a
            bcs[nm] = temp(a)
            links.append([['BC', nm], list(a)])
        else:
            links.append([list(a), list(b)])
    return dict(parts=parts, links=links, bcs=bcs)
