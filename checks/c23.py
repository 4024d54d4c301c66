"""C23: error measures."""
import importlib
import itertools
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

from mc.core import Result

META = dict(
    title='Error measures equal their textbook definitions',
    statement=(
        'For all measured and simulated series of equal length, as arrays '
        'or as series, one simulated column or several, mean squared error, '
        'mean absolute error, mean signed deviation (simulated minus '
        'measured), RMSE, CV(RMSE), the normalised errors (by mean, median, '
        'interquartile range or range of the measured data), the rolling '
        'errors (centred windows) and the plain and adjusted coefficient '
        'of determination equal their definitions, column by column. '
        'Measured data with gaps is refused by the coefficient of '
        'determination; the arguments are not changed.'),
    quantifier=dict(over=['inputs'], text=(
        'all pairs of series, all columns, windows, norms and methods')),
    why_tests_cant='no test calls the error measures',
    anchors=dict(
        files=['multisim/_utility/stat_error_measures.py'],
        mechanism=[dict(name='measures', where='stat_error_measures.py: '
                        'r_squared, r_squared_adj, mean_squared_err, '
                        'mean_abs_err, mean_signed_deviation, rmse, cv_rmse, '
                        'normalized_err')],
        state=[], observe_at=['returned values'], hook_needed=None),
    technique='exhaustive enumeration of all short series over a small set '
              'of values against exact rational arithmetic',
    level_note=('all measured series of length 2 to 4 and all simulated '
                'ones over 3 values (all pairs of columns for 2 columns), '
                '4 kinds of argument, all windows.'),
)
PROPERTY = 'C23'
RULE = '(measured series), all simulated series and options inside'
ASSUMPTIONS = ['constant measured data has no coefficient of determination']
BOUNDS = 'length 2 to 4 (5 thorough), values -1, 0.5 and 3'
MODULES = 'multisim._utility.stat_error_measures', 'multisim.utility_functions'
VALS = (F(-1), F(1, 2), F(3))


def cases(tier):
    out = []
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for y in itertools.product(range(3), repeat=n):
            for mod in MODULES:
                out.append(dict(y=list(y), mod=mod))
    return out


def warm():
    import multisim  # noqa


def mean(x):
    return sum(x) / len(x)


def quantile(x, q):
    x = sorted(x)
    p = q * (len(x) - 1)
    i = int(p)
    return x[i] if i + 1 == len(x) else x[i] + (p - i) * (x[i + 1] - x[i])


def reference(y, h):
    d = [b - a for a, b in zip(y, h)]
    out = dict(mse=mean([x * x for x in d]), mae=mean([abs(x) for x in d]),
               msd=mean(d))
    out['rmse'] = math.sqrt(out['mse'])
    tot = sum((a - mean(y)) ** 2 for a in y)
    out['r2'] = None if tot == 0 else 1 - sum(x * x for x in d) / tot
    return out


def norms(y):
    return dict(mean=mean(y), median=quantile(y, F(1, 2)),
                IQR=quantile(y, F(3, 4)) - quantile(y, F(1, 4)),
                range=max(y) - min(y))


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


def rolling(d, window, minp):
    """Centred window: `window` values ending (window - 1) // 2 later."""
    n = len(d)
    off = (window - 1) // 2
    out = []
    for i in range(n):
        w = [d[j] for j in range(i + off - window + 1, i + off + 1)
             if 0 <= j < n]
        out.append(mean(w) if len(w) >= (window if minp is None else minp)
                   else None)
    return out


def run(case):
    m = importlib.import_module(case['mod'])
    r = Result()
    y = [VALS[i] for i in case['y']]
    n = len(y)
    ya = np.array([float(x) for x in y])
    funs = dict(mse=m.mean_squared_err, mae=m.mean_abs_err,
                msd=m.mean_signed_deviation, rmse=m.rmse)
    hs = [list(h) for h in itertools.product(VALS, repeat=n)]
    refs = [reference(y, h) for h in hs]
    arr = np.array([[float(x) for x in h] for h in hs])  # one row per series
    idx = pd.date_range('2021-01-01', periods=n, freq='H')

    def bad(what, got, want, h=None):
        r.fail('%s of y=%s, y_hat=%s: %s, expected %s' % (
            what, ya, None if h is None else arr[h], got,
            None if want is None else float(want)), what.split()[0])

    for i, h in enumerate(hs):
        ref = refs[i]
        r.see(case['y'], arr[i])
        for kind in ('array', 'series'):
            a, b = ya.copy(), arr[i].copy()
            if kind == 'series':
                a, b = pd.Series(a, idx), pd.Series(b, idx)
            for k, f in funs.items():
                r.validated += 1
                if not close(f(a, b), ref[k]):
                    return bad(k + ' ' + kind, f(a, b), ref[k], i) or r
            if ref['r2'] is not None:
                g = m.r_squared(a, b)
                if not close(g, ref['r2']):
                    return bad('r2 ' + kind, g, ref['r2'], i) or r
            if mean(y) != 0:
                g = m.cv_rmse(a, b)
                if not close(g, ref['rmse'] / float(mean(y))):
                    return bad('cvrmse ' + kind, g,
                               ref['rmse'] / float(mean(y)), i) or r
            for nm, v in norms(y).items():
                if v == 0:
                    continue
                for em in funs:
                    g = m.normalized_err(a, b, err_method=em.upper(),
                                         norm=nm)
                    r.validated += 1
                    if not close(g, ref[em] / float(v)):
                        return bad('normalized %s %s' % (em, nm), g,
                                   ref[em] / float(v), i) or r
            if list(np.asarray(a)) != list(ya) or \
                    list(np.asarray(b)) != list(arr[i]):
                r.fail('arguments changed', 'changed')
                return r
        r.transitions += 1
        if ref['r2'] is not None:
            for p in range(1, n - 1):
                want = 1 - (1 - ref['r2']) * F(n - 1, n - p - 1)
                g = m.r_squared_adj(p, r_sqrd=float(ref['r2']), n=n)
                if not close(g, want):
                    return bad('adjusted r2', g, want, i) or r
                g = m.r_squared_adj(p, y=ya.copy(), y_hat=arr[i].copy())
                if not close(g, want):
                    return bad('adjusted r2 data', g, want, i) or r
        d = [b - a for a, b in zip(y, h)]
        if i % 3 == sum(case['y']) % 3:
            for w in range(1, n + 1):
                for mp in (None, 1, w):
                    rolled(r, m, ya, arr[i], d, w, mp)
                    if r.viol:
                        return r
    # several columns: every pair of simulated series
    step = 1 if n < 4 else 5
    pairs = [(i, j) for i in range(len(hs)) for j in range(len(hs))]
    for i, j in pairs[::step]:
        cols = arr[[i, j]].T.copy()
        r.transitions += 1
        for k, f in list(funs.items()) + [('r2', m.r_squared)]:
            want = [refs[i][k], refs[j][k]]
            if want[0] is None:
                continue
            for yy in (ya.copy(), ya[:, None].copy()):
                g = np.asarray(f(yy, cols.copy())).reshape(-1)
                r.validated += 1
                if g.shape != (2,) or not close(g[0], want[0]) or \
                        not close(g[1], want[1]):
                    r.fail('%s of y=%s, y_hat=%s: %s, expected %s' % (
                        k, yy.tolist(), cols.tolist(), g,
                        [float(x) for x in want]), 'columns ' + k)
                    return r
    # measured and simulated columns, each with its own measured series
    if len(set(case['y'])) > 1:
        for j in range(0, len(hs), step):
            if len(set(hs[j])) < 2:
                continue
            Y = np.array([ya, arr[j]]).T.copy()
            cols = arr[[j, len(hs) - 1 - j]].T.copy()
            want = [reference(y, hs[j]), reference(hs[j],
                                                   hs[len(hs) - 1 - j])]
            for k, f in list(funs.items()) + [('r2', m.r_squared)]:
                g = np.asarray(f(Y.copy(), cols.copy())).reshape(-1)
                r.validated += 1
                if g.shape != (2,) or not close(g[0], want[0][k]) or \
                        not close(g[1], want[1][k]):
                    r.fail('%s of y=%s, y_hat=%s: %s, expected %s' % (
                        k, Y.tolist(), cols.tolist(), g,
                        [float(x[k]) for x in want]), 'matrix ' + k)
                    return r
    # gaps
    for p in range(n):
        g = ya.copy()
        g[p] = np.nan
        try:
            m.r_squared(g, ya.copy())
            r.fail('coefficient of determination of data with gaps', 'gaps')
        except AssertionError:
            pass
    r.outcome = 'length %d' % n
    return r


def rolled(r, m, ya, h, d, w, mp):
    for k, f, fun in (('mse', m.mean_squared_err, lambda x: x * x),
                      ('mae', m.mean_abs_err, abs),
                      ('msd', m.mean_signed_deviation, lambda x: x),
                      ('rmse', m.rmse, lambda x: x * x)):
        want = rolling([fun(x) for x in d], w, mp)
        if k == 'rmse':
            want = [None if x is None else math.sqrt(x) for x in want]
        g = f(ya.copy(), h.copy(), roll=True, window=w, min_periods=mp)
        g = np.asarray(g).reshape(-1)
        r.validated += 1
        ok = len(g) == len(want) and all(
            np.isnan(a) if b is None else close(a, b)
            for a, b in zip(g, want))
        if not ok:
            r.fail('rolling %s, window %s, at least %s, of y=%s, y_hat=%s: '
                   '%s, expected %s' % (k, w, mp, ya, h, g, [
                       None if x is None else float(x) for x in want]),
                   'rolling ' + k)
            return
