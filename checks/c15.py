"""C15: meters."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from mc.core import Result
from mc.models import library
from mc.nets import T0, quiet, run as run_net
from mc.thermref import cp, rho

META = dict(
    title='Meters report what the simulation stored',
    statement=(
        'A meter attached to a finished simulation reports, for every stored '
        'time, the temperature, massflow or volumeflow (massflow over the '
        'density of the cell) of exactly the cell it was attached to; a heat '
        'meter reports both temperatures, the massflow of the chosen part, '
        'the heat flow massflow x mean heat capacity x difference, and '
        'counters that are zero at the start and equal the sums over the '
        'steps taken, for the signed flows and (full output) for the '
        'positive ones. With resampled storage the values are the means per '
        'interval of these. Indices outside the part and names already used '
        'for the same kind of meter are refused and change nothing.'),
    quantifier=dict(over=['configurations', 'inputs', 'histories'],
                    text=('all parts and cells, all meter types, stored in '
                          'memory or on disk, resampled or not, any order '
                          'of adding meters')),
    why_tests_cant='no test uses the meters',
    anchors=dict(
        files=['multisim/_utility/meters.py', 'multisim/simenv.py'],
        mechanism=[
            dict(name='meters', where='meters.py: Meters.heat_meter, '
                 'temperature, massflow, volumeflow'),
            dict(name='flow of a cell',
                 where='simenv.py:_massflow_idx_from_temp_idx'),
        ],
        state=[dict(name='meters', meaning='frames per type and name',
                    where='Meters.meters, Meters.meters_df')],
        observe_at=['meters', 'meters_df', 'disk store'],
        hook_needed=None),
    technique='exhaustive enumeration of meters over all parts and pairs of '
              'cells of simulations with every kind of part, and of all '
              'sequences of adding up to three meters, on the real code',
    level_note=('9 models x 4 storage modes; every cell with every sensor, '
                'every pair of cells with a heat meter x 4 options; all '
                'sequences of 3 operations from 12.'),
)
PROPERTY = 'C15'
RULE = '(model, storage) with all cells and cell pairs; (sequence)'
ASSUMPTIONS = ['the stored arrays themselves are checked by other properties']
BOUNDS = 'models of the library, seconds of time'
STORES = {
    'memory': None,
    'disk': dict(resample_final=False),
    'resample1': dict(resample_final=True, resample_freq='1s'),
    'resample2': dict(resample_final=True, resample_freq='2s'),
}
LEN = dict(pipe=4., tes=4., heated=6., valve=6., hexnum=2.2, hex=4.,
           mix=6., chp=6.)
START = str(T0)


OPS = ([('temperature', 'a', 'q', 0), ('temperature', 'b', 'q', 1),
        ('massflow', 'a', 'q', 0), ('massflow', 'b', 'p', 0),
        ('volumeflow', 'a', 'q', 2), ('volumeflow', 'b', 'q', 2),
        ('heat_meter', 'a', 'p', 0, 'q', 2), ('heat_meter', 'b', 'q', 1,
                                               'p', 1),
        ('temperature', 'c', 'q', 99), ('massflow', 'c', 'nope', 0),
        ('volumeflow', 'c', 'q', 99), ('heat_meter', 'c', 'p', 0, 'q', 99)])


def cases(tier):
    out = []
    for m, st in itertools.product(sorted(library()), STORES):
        if m in LEN:
            out.append(dict(kind='all', model=m, store=st))
    depth = 3 if tier == 'quick' else 4
    for first in itertools.product(range(len(OPS)), repeat=1):
        for st in STORES:
            out.append(dict(kind='seq', model='pipe', store=st,
                            first=list(first), depth=depth))
    return out


def simulate(model, store):
    """-> finished simulation, scratch directory."""
    net, tf, kw = library()[model]
    tf = LEN[model]
    if model == 'hexnum':
        tf = 1.2
    opts = STORES[store]
    if opts is None:
        return run_net(net, tf, **kw), None
    tmp = tempfile.mkdtemp(prefix='c15_')
    disk = dict(opts, path=tmp, sim_name='x', overwrite=True,
                start_date=START, save_every_n_steps=7)
    return run_net(net, tf, save=True, disk=disk, **kw), tmp


def warm():
    for m in LEN:
        run_net(library()[m][0], .5, **library()[m][2])


def arrays(s, part):
    """-> temperatures per flat cell and massflow per flat cell."""
    p = s.parts[part]
    n = len(s.time_vec)
    T = np.array(p.res).reshape(n, -1)
    dm = np.array(p.res_dm).reshape(n, -1)
    kind = type(p).__name__
    cells = T.shape[1]
    if kind == 'HexNum':
        col = np.arange(cells) % 3
        chan = np.where(col == 0, 0, np.where(col == 2, 1, -1))
    elif kind == 'HeatExchanger':
        chan = np.array([0 if x.startswith('sup') else 1
                         for x in p.port_names])
    elif dm.shape[1] == 1:
        chan = np.zeros(cells, int)
    else:
        chan = np.arange(cells)
    return T, dm, chan


def heat_ref(t, Tw, Tc, m, full):
    dt = np.concatenate([[0.], np.diff(t)])
    v = m / rho(Tc)
    q = (Tw - Tc) * m / 1e3 * (cp(Tw) + cp(Tc)) / 2
    d = dict(T_ff=Tw, T_rf=Tc, T_diff=Tw - Tc, massflow_kgps=m,
             volume_flow_m3ps=v, heatflow_kW=q,
             flown_mass_kg=np.cumsum(m * dt),
             flown_volume_m3=np.cumsum(v * dt),
             flown_heat_MJ=np.cumsum(q * dt) / 1e3)
    d['flown_heat_kWh'] = d['flown_heat_MJ'] / 3.6
    if full:
        pos = lambda x: np.where(x > 0, x, 0.)
        d['flown_mass_pos_kg'] = np.cumsum(pos(m) * dt)
        d['flown_volume_pos_m3'] = np.cumsum(pos(v) * dt)
        d['flown_heat_pos_MJ'] = np.cumsum(pos(q) * dt) / 1e3
        d['flown_heat_pos_kWh'] = d['flown_heat_pos_MJ'] / 3.6
    return d


def expected(s, m, op, full=False, hot=False):
    """-> {column: values} at the stored times, or None when refused."""
    t = np.array(s.time_vec)
    if op[0] == 'heat_meter':
        _, _, wp, wc, cpart, cc = op
        Tw, dw, hw = arrays(s, wp)
        Tc, dc, hc = arrays(s, cpart)
        flow = dw[:, hw[wc]] if hot else dc[:, hc[cc]]
        return heat_ref(t, Tw[:, wc], Tc[:, cc], flow, full)
    _, name, part, cell = op
    T, dm, chan = arrays(s, part)
    if op[0] == 'temperature':
        return {'T_' + name: T[:, cell]}
    if op[0] == 'massflow':
        return {name: dm[:, chan[cell]]}
    return {name: dm[:, chan[cell]] / rho(T[:, cell])}


def invalid(s, op):
    ends = [op[2:4]] + ([op[4:6]] if op[0] == 'heat_meter' else [])
    return any(p not in s.parts or c >= np.array(s.parts[p].T).size
               for p, c in ends)


def add(m, op, full=False, hot=False):
    with quiet():
        if op[0] == 'heat_meter':
            kw = {}
            if full:
                kw['full_output'] = True
            if hot:
                kw['massflow_from_hot_part'] = True
            m.heat_meter(name=op[1], warm_part=op[2], warm_cell=op[3],
                         cold_part=op[4], cold_cell=op[5], **kw)
        else:
            getattr(m, op[0])(name=op[1], part=op[2], cell=op[3])


def resample(t, x, freq):
    """-> index of intervals, means with gaps interpolated."""
    k = np.floor(t / freq + 1e-9).astype(int)
    out = np.full(k.max() + 1, np.nan)
    for i in set(k):
        out[i] = x[k == i].mean()
    ok = np.flatnonzero(~np.isnan(out))
    return np.interp(np.arange(len(out)), ok, out[ok])


def compare(r, frame, want, s, store, what):
    t = np.array(s.time_vec)
    freq = {'resample1': 1., 'resample2': 2.}.get(store)
    if sorted(frame.columns) != sorted(want):
        r.fail('%s: columns %s' % (what, list(frame.columns)), 'columns')
        return False
    for c, x in want.items():
        if freq:
            x = resample(t, x, freq)
        y = frame[c].to_numpy(float)
        fit = 'vol' in c or 'heat' in c or 'volumeflow' in what[0]
        rel = 1.5e-3 if fit else 1e-7  # tables and fits of water differ
        scale = 1e-12 + rel * np.abs(x).max()
        if len(y) != len(x) or not np.abs(y - x).max() <= scale:
            r.fail('%s: %s is %s, expected %s' % (
                what, c, y[:4], x[:4]), c.split('_')[0]
                if what[0] == 'heat_meter' else what[0])
            return False
    sec = (frame.index - pd.Timestamp(START)).total_seconds()
    ref = t if not freq else np.arange(len(frame)) * freq
    if np.abs(np.array(sec) - ref).max() > 1e-5:
        r.fail('%s: times %s, expected %s' % (what, list(sec[:4]), ref[:4]),
               'times')
        return False
    return True


def run(case):
    import multisim as ms
    r = Result()
    s, tmp = simulate(case['model'], case['store'])
    try:
        r.transitions += len(s.time_vec) - 1
        if case['kind'] == 'all':
            every(r, ms, s, case)
        else:
            sequences(r, ms, s, case)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return r


def every(r, ms, s, case):
    with quiet():
        m = ms.Meters(s, start_time=START)
    store = case['store']
    cells = [(p, c) for p in sorted(s.parts)
             for c in range(np.array(s.parts[p].T).size)
             if arrays(s, p)[2][c] >= 0]
    ops = [(k, 'm%d' % i, p, c) for k in (
        'temperature', 'massflow', 'volumeflow')
        for i, (p, c) in enumerate(cells)]
    todo = [(o, False, False) for o in ops]
    pairs = [('heat_meter', '', *a, *b) for a in cells for b in cells]
    if store != 'memory':  # writing is slow: neighbours and ends
        pairs = [x for i, x in enumerate(pairs) if i % 17 == 0]
        todo = todo[::3]
    for i, o in enumerate(pairs):
        todo.append((o[:1] + ('h%d' % i,) + o[2:],
                     bool(i % 2), bool(i // 2 % 2)))
    if store == 'memory' and len(cells) <= 12:
        todo += [(o[:1] + ('g%d' % i,) + o[2:], not i % 2, not i // 2 % 2)
                 for i, o in enumerate(pairs)]
    for op, full, hot in todo:
        add(m, op, full, hot)
        r.see(case["model"], store, op, full, hot)
        r.validated += 1
        want = expected(s, m, op, full, hot)
        frame = m.meters[op[0]][op[1]]
        if not compare(r, frame, want, s, store, op):
            return
        if len(m.meters_df.columns) > 60:  # keep the merged frame small
            m.meters_df.drop(columns=m.meters_df.columns, inplace=True)
        elif not m.meters_df[op[0]][op[1]].equals(frame):
            r.fail('%s: other values in the merged frame' % (op,), 'merged')
            return
    r.outcome = 'all'


def sequences(r, ms, s, case):
    store = case['store']
    for rest in itertools.product(range(len(OPS)),
                                  repeat=case['depth'] - 1):
        if store != 'memory' and len(set(rest)) > 1 and sum(rest) % 7:
            continue
        word = case['first'] + list(rest)
        with quiet():
            m = ms.Meters(s, start_time=START)
        have = {}
        for i in word:
            op = OPS[i]
            bad = op[:2] in have or invalid(s, op)
            try:
                add(m, op)
                done = True
            except Exception:
                done = False
            r.validated += 1
            if done == bad:
                r.fail('after %s: %s %s' % (
                    sorted(have), op, 'accepted' if done else 'refused'),
                    'refusal')
                return
            if done:
                have[op[:2]] = op
        r.see(store, word)
        got = {(k, n) for k, v in m.meters.items() for n in v}
        if got != set(have):
            r.fail('%s: meters %s' % (word, got), 'kept')
            return
        for key, op in have.items():
            want = expected(s, m, op)
            if not compare(r, m.meters[op[0]][op[1]], want, s, store, op):
                return
            if store != 'memory':
                with quiet(), pd.HDFStore(
                        s._disk_store['store'].filename, 'r') as st:
                    disk = st['meters/' + op[1]]
                last = [o for o in have.values() if o[1] == op[1]][-1]
                if last == op:
                    if not compare(r, disk, want, s, store,
                                   ('disk ' + op[0],) + op[1:]):
                        return
                elif sorted(disk.columns) != sorted(want):
                    r.fail('%s: on disk %s instead of %s' % (
                        word, last, op), 'disk-same-name')
    r.outcome = 'sequences'
