"""C05: storing the results never changes, loses or reorders them."""
import glob
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from mc.core import Result
from mc.models import library
from mc.nets import quiet, run as run_net, T0

META = dict(
    title='Results are the same wherever and however often they are stored',
    statement=(
        'The result history of a simulation (time axis, temperatures, mass '
        'flows, heat flows, electric and gas power, CHP state of every part) '
        'does not depend on the storage settings. With disk saving the '
        'history held in memory after the run and the tables returned by '
        'return_stored_data contain every step of the run exactly once, in '
        'order, with exactly the values of a run kept in memory, for every '
        'saving interval save_every_n_steps, with and without compression. '
        'The stored time stamps are start_date plus the simulated seconds. '
        'A store_results selection keeps exactly the selected cells of that '
        'part (False: nothing) and changes nothing else; resampling yields '
        'the mean of the steps within each interval, empty intervals being '
        'interpolated. A run that needs more steps than were allocated at '
        'its start keeps all its results as well.'),
    quantifier=dict(over=['histories', 'configurations', 'crash_points'],
                    text=('every flush position within a run (every saving '
                          'interval from 1 to beyond the number of steps), '
                          'every part type, compression and selection')),
    why_tests_cant=(
        'no test stores a run; which steps fall on a flush boundary depends '
        'on the interval, the number of steps and the part types, so single '
        'runs cannot show that no boundary loses or repeats a step'),
    anchors=dict(
        files=['multisim/simenv.py', 'multisim/parts/heated_pipe.py',
               'multisim/parts/chp_plant.py'],
        mechanism=[
            dict(name='flush to disk / enlarge arrays',
                 where='simenv.py:_free_memory'),
            dict(name='merging of the blocks', where='simenv.py:_finalize_sim'),
            dict(name='selection, resampling, compression',
                 where='simenv.py:_compress_store'),
            dict(name='special result arrays',
                 where='parts: _special_free_memory, '
                       '_final_datastore_backcalc, _special_crop_results'),
        ],
        state=[dict(name='block of results in memory', meaning='rows since '
                    'the last flush', where='res, res_dm, time_vec')],
        observe_at=['res/res_dm/res_dQ of the parts, time_vec',
                    'return_stored_data()'],
        hook_needed=None),
    technique='exhaustive enumeration of all flush positions of bounded runs '
              'on the real code, differential against the in-memory history',
    level_note=('All saving intervals 1..N+2 for runs of up to about 70 '
                'steps of nine networks covering every part type, times '
                'compression; all listed selections and resampling rates.'),
)
PROPERTY = 'C05'
RULE = ('(network, saving interval, compression, resampling, selection, start '
        'date) - intervals enumerated completely; non-trivial: run stored and '
        'compared table by table')
ASSUMPTIONS = ['the in-memory run of the same network is the reference '
               'history; its correctness is the subject of the other '
               'properties']
BOUNDS = 'runs of 9 to 70 steps, intervals 1..N+2'

# number of rows of each reference run; the run itself reports if it drifts
ROWS = {'pipe': 18, 'tes': 67, 'heated': 26, 'valve': 36, 'hexnum': 12,
        'hex': 22, 'mix': 13, 'chp': 51, 'closed': 9}
START = str(T0)


def cases(tier):
    out = []
    lib = library()
    big = tier == 'thorough'
    for name in lib:
        n = ROWS[name]
        for k in range(1, n + 4):
            if not big and n > 40 and k > 12 and n % k not in (0, 1, 2) \
                    and abs(n - k) > 3 and k % 3:
                continue          # quick: thin out intervals of long runs
            for comp in (0, 9) if big or k < 4 or k > n - 2 else \
                    ((0,) if k % 2 else (9,)):
                out.append(dict(m=name, k=k, comp=comp))
        for k in (1, 4, 10 ** 5):
            for freq in ('1s', '500ms', '100ms', '2s', '300ms'):
                for comp in (0, 9):
                    out.append(dict(m=name, k=k, comp=comp, freq=freq))
        if name in ('heated', 'valve', 'chp'):
            # a series fixes the start date
            out.append(dict(m=name, k=5, comp=9, infer=True))
            continue
        out.append(dict(m=name, k=5, comp=9, start='2020-02-28 23:59:58'))
        out.append(dict(m=name, k=5, comp=0, start='2021-10-31 02:59:59.5',
                        freq='500ms'))
    sels = [False, True, 0, 2, [0, 2], [1], [2, 0], {'slice': [0, 2]},
            {'slice': [None, None, 2]}, {'slice': [1, None]}]
    for name, part in (('pipe', 'q'), ('pipe', 'p'), ('tes', 't'),
                       ('heated', 'h'), ('heated', 'b'), ('valve', 'v'),
                       ('valve', 'q'), ('hexnum', 'h'), ('chp', 'c')):
        for sel in sels:
            for k in (3, 10 ** 5):
                for comp in (0, 9):
                    for freq in (None, '500ms'):
                        c = dict(m=name, k=k, comp=comp, part=part, sel=sel)
                        if freq:
                            c['freq'] = freq
                        out.append(c)
    for name, part in (('hex', 'h'), ('mix', 'm'), ('valve', 'c')):
        for sel in (False, True):
            out.append(dict(m=name, k=3, comp=9, part=part, sel=sel))
    # more steps than the arrays hold at the start (kept in memory)
    for name in lib:
        out.append(dict(m=name, grow=True))
    return out


def warm():
    for name, (net, tf, kw) in library().items():
        run_net(net, min(tf, 1.0), **kw)


_ref = {}


def arrays(s):
    out = {'time': np.array(s.time_vec)}
    for n, p in s.parts.items():
        out[n + '/res'] = np.array(p.res)
        out[n + '/dm'] = np.array(p.res_dm)
        for key, attr in (('heating', 'res_dQ'), ('Pel', 'res_Pel'),
                          ('Pgas', 'res_Pgas'), ('chp_state', '_chp_state')):
            if isinstance(getattr(p, attr, None), np.ndarray):
                out[n + '/' + key] = np.array(getattr(p, attr))
    return out


def reference(name):
    if name not in _ref:
        net, tf, kw = library()[name]
        _ref[name] = arrays(run_net(net, tf, **kw))
    return _ref[name]


def run(case):
    r = Result()
    net, tf, kw = library()[case['m']]
    if case.get('grow'):
        return grow(r, net, tf, kw, case)
    ref = reference(case['m'])
    n = len(ref['time'])
    net = dict(net)
    sel = case.get('sel', True)
    if isinstance(sel, dict):
        sel = slice(*sel['slice'])
    if 'part' in case:
        net['parts'] = [[k, q, dict(p, store_results=sel)]
                        if q == case['part'] else [k, q, p]
                        for k, q, p in net['parts']]
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH')) + '/'
    start = pd.Timestamp(case.get('start', START))
    try:
        disk = dict(save_every_n_steps=case['k'], path=d, sim_name='x',
                    complevel=case['comp'], start_date='infer'
                    if case.get('infer') else str(start),
                    resample_final='freq' in case)
        if 'freq' in case:
            disk['resample_freq'] = case['freq']
        s = run_net(net, tf, save=True, disk=disk, **kw)
        with quiet():
            st = s.return_stored_data()
        files = sorted(os.path.basename(f) for f in glob.glob(d + '*'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.transitions = n - 1
    r.outcome = 'stored'
    got = arrays(s)
    # 1. the history in memory after the run
    if sorted(got) != sorted(ref):
        r.fail('result arrays differ: %s' % sorted(set(got) ^ set(ref)))
        return r
    for key, a in ref.items():
        b = got[key]
        if a.shape != b.shape or not np.array_equal(a, b):
            r.fail('history of %s after a stored run differs from the '
                   'in-memory run: %s rows %s' % (
                       key, b.shape, first_diff(a, b)), 'memory')
            return r
        r.see(key, case['k'], b[-1])
    if sum(f.endswith('.h5') for f in files) != 1 or \
            any(f.endswith('_tmp') for f in files):
        r.fail('files left behind: %s' % files)
    # 2. the stored tables
    for key, a in ref.items():
        if key == 'time':
            continue
        part, tab = key.split('/')
        flat = a.reshape(len(a), -1)
        chosen = sel if part == case.get('part') else True
        if chosen is False:
            if part in st:
                r.fail('part %s is stored although store_results=False'
                       % part)
            continue
        if part not in st or tab not in st[part]:
            r.fail('table %s is missing' % key, 'missing')
            continue
        if chosen is not True and \
                flat.shape[1] >= s.parts[part].num_gp:
            if isinstance(chosen, int):
                chosen = [chosen]
            flat = flat[:, chosen]
        exp, idx = flat, ref['time']
        if 'freq' in case:
            exp, idx = resampled(flat, ref['time'], case['freq'], start)
        df = st[part][tab]
        if df.shape != exp.shape:
            r.fail('table %s has shape %s, expected %s'
                   % (key, df.shape, exp.shape), 'shape')
            continue
        ok = np.array_equal(df.values, exp) if 'freq' not in case else \
            np.allclose(df.values, exp, rtol=1e-9, atol=1e-9)
        if not ok:
            r.fail('table %s differs from the history: %s'
                   % (key, first_diff(exp, df.values)), 'table')
        stamps = (df.index - start).total_seconds().values
        if not np.allclose(stamps, idx, rtol=0, atol=2e-6):
            r.fail('time stamps of %s are off: %s'
                   % (key, first_diff(idx, stamps)), 'stamps')
    sv = st['sim_vecs']
    if len(sv) != n or not np.array_equal(sv['time'].values, ref['time']):
        r.fail('sim_vecs time axis differs', 'sim_vecs')
    elif not np.allclose(np.diff(ref['time']), sv['timestep'].values[:-1],
                         rtol=0, atol=1e-12):
        r.fail('sim_vecs time steps differ', 'sim_vecs')
    r.validated = 1
    return r


def first_diff(a, b):
    m = min(len(a), len(b))
    a, b = np.asarray(a)[:m].reshape(m, -1), np.asarray(b)[:m].reshape(m, -1)
    if a.shape != b.shape:
        return 'shapes %s %s' % (a.shape, b.shape)
    bad = np.argwhere(a != b)
    if not len(bad):
        return 'length'
    i, j = bad[0]
    return 'row %d col %d: %r instead of %r' % (i, j, b[i, j], a[i, j])


def resampled(x, t, freq, start):
    """Mean per interval (intervals counted from midnight), gaps linear."""
    f = pd.Timedelta(freq).value
    base = start.value - start.normalize().value
    ns = base + np.array([pd.Timedelta(v, unit='s').value for v in t])
    b = ns // f
    lo, hi = b[0], b[-1]
    out = np.full((hi - lo + 1, x.shape[1]), np.nan)
    for i in range(lo, hi + 1):
        m = b == i
        if m.any():
            out[i - lo] = x[m].mean(axis=0)
    has = ~np.isnan(out[:, 0]) if out.shape[1] else np.ones(len(out), bool)
    for j in range(out.shape[1]):
        out[:, j] = np.interp(np.arange(len(out)), np.flatnonzero(has),
                              out[has, j])
    return out, ((np.arange(lo, hi + 1) * f) - base) / 1e9


def grow(r, net, tf, kw, case):
    """In-memory run with more steps than allocated vs a stored run."""
    kw = dict(kw, max_stepsize=.004)
    tf = .5          # 100 rows are allocated, at least 125 steps are needed
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH')) + '/'
    try:
        a = arrays(run_net(net, tf, save=True, disk=dict(
            path=d, sim_name='x', resample_final=False), **kw))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    b = arrays(run_net(net, tf, **kw))
    for key in a:
        if a[key].shape != b[key].shape or not np.array_equal(a[key], b[key]):
            r.fail('a long run in memory differs from a stored one in %s: '
                   '%s' % (key, first_diff(a[key], b[key])), 'grow')
            break
    r.outcome = 'grown' if len(a['time']) > 101 else 'not grown'
    r.transitions = len(a['time']) - 1
    for row in range(0, len(a['time']), 10):
        r.see(case['m'], row, *[v[row] for v in a.values()])
    r.validated = 1
    return r
