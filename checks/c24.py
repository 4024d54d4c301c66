"""C24: material properties."""
import numpy as np

from mc.core import Result

META = dict(
    title='Material properties match the tables in every form they come in',
    statement=(
        'Density, heat capacity, conductivity, viscosity, Prandtl number and '
        'expansion of water between 0 and 100 degC, those of dry air between '
        '-20 and 100 degC and the saturation of humid air lie within the '
        'fit\'s accuracy of published tables at every temperature, vary '
        'smoothly, and are the same whether calculated for numbers or '
        'arrays of any size and layout, returned or written in place. '
        'Reynolds and Rayleigh numbers follow their definitions and do not '
        'depend on the direction of flow or of the temperature difference.'),
    quantifier=dict(over=['inputs'], text=(
        'all temperatures in the range, all array layouts, all forms')),
    why_tests_cant='no test evaluates the properties',
    anchors=dict(
        files=['multisim/_precompiled/material_properties.py',
               'multisim/_precompiled/dimensionless_numbers.py',
               'multisim/precomp_funs.py'],
        mechanism=[dict(name='polynomials',
                        where='material_properties.py, precomp_funs.py: '
                        'rho_water, cp_water, lambda_water, ny_water, ...'),
                   dict(name='numbers', where='dimensionless_numbers.py')],
        state=[], observe_at=['returned values', 'arrays filled'],
        hook_needed=None),
    technique='exhaustive enumeration of temperatures on a 0.05 K lattice '
              'in all forms and layouts against published tables',
    level_note=('20 properties x 2 modules x 6 layouts x 2001 temperatures; '
                'smoothness from lattice point to lattice point.'),
)
PROPERTY = 'C24'
RULE = '(module, function, layout), all temperatures inside'
ASSUMPTIONS = ['IAPWS water, ideal dry air at 0.1 MPa, Magnus saturation']
BOUNDS = 'lattice of 0.05 K (quick) or 0.005 K (thorough)'

_T = np.arange(0., 101., 10.)
WATER = {
    'rho': ([999.8, 999.7, 998.2, 995.65, 992.2, 988.0, 983.2, 977.8, 971.8,
             965.3, 958.4], .0005),
    'cp': ([4219, 4195, 4185, 4180, 4179, 4180, 4183, 4188, 4196, 4205,
            4216], .0025),
    'lambda': ([.5557, .5787, .5980, .6145, .6286, .6406, .6508, .6594,
                .6665, .6723, .6771], .03),
    'ny': (np.array([1.792, 1.307, 1.004, .801, .658, .553, .474, .413,
                     .364, .326, .294]) * 1e-6, .05),
    'Pr': ([13.5, 9.45, 7.0, 5.42, 4.33, 3.55, 2.98, 2.56, 2.22, 1.96,
            1.75], .16),
    'beta': (np.array([-.068, .088, .207, .303, .385, .457, .523, .585, .643,
                       .698, .752]) * 1e-3, .02),
}
NAMES = {  # name: (property, fluid, in place)
    'rho_water': ('rho', 'w', 0), 'get_rho_water': ('rho', 'w', 1),
    'cp_water': ('cp', 'w', 0), 'get_cp_water': ('cp', 'w', 1),
    'lambda_water': ('lambda', 'w', 0), 'get_lambda_water': (
        'lambda', 'w', 1),
    'ny_water': ('ny', 'w', 0), 'get_ny_water': ('ny', 'w', 1),
    'Pr_water_return': ('Pr', 'w', 0), 'get_Pr_water': ('Pr', 'w', 1),
    'beta_water_return': ('beta', 'w', 0), 'get_beta_water': (
        'beta', 'w', 1),
    'get_rho_dryair': ('rho', 'a', 1), 'get_lam_dryair': ('lam', 'a', 1),
    'lam_dryair_return': ('lam', 'a', 0), 'get_ny_dryair': ('ny', 'a', 1),
    'ny_dryair_return': ('ny', 'a', 0),
    'humid_air_saturation_pressure': ('p', 'h', 0),
    'humid_air_sat_water_mass': ('x', 'h', 0),
}
LAYOUTS = ('scalar', 'vector', 'matrix', 'fortran', 'strided', 'reversed')


def cases(tier):
    out = []
    for mod in ('matprops', 'pf'):
        for f in NAMES:
            for lay in LAYOUTS:
                if lay == 'scalar' and NAMES[f][2]:
                    continue
                out.append(dict(mod=mod, f=f, lay=lay,
                                h=.05 if tier == 'quick' else .005))
        out.append(dict(mod='dimless_no' if mod == 'matprops' else mod,
                        f='numbers', lay='', h=0))
    return out


def warm():
    import multisim  # noqa


def spline(T, y):
    """Cubic interpolation (Lagrange over the 4 nearest points)."""
    y = np.asarray(y, float)
    i = np.clip(np.floor(T / 10).astype(int) - 1, 0, len(y) - 4)
    out = np.zeros_like(T)
    for k in range(4):
        w = np.ones_like(T)
        for m in range(4):
            if m != k:
                w *= (T - 10. * (i + m)) / (10. * (k - m))
        out += w * y[i + k]
    return out


def table(prop, fluid, T):
    """-> reference values, tolerance."""
    if fluid == 'w':
        v, tol = WATER[prop]
        ref = spline(T, v)
        return ref, tol * np.abs(ref) + (1e-5 if prop == 'beta' else 0)
    K = T + 273.15
    if fluid == 'a':
        rho = 1e5 / (287.05 * K)
        mu = 1.716e-5 * (K / 273.15) ** 1.5 * (273.15 + 110.4) / (K + 110.4)
        ref = dict(rho=rho, ny=mu / rho,
                   lam=.02436 * (K / 273.15) ** .81)[prop]
        return ref, .02 * ref
    p = 611.2 * np.exp(np.where(T >= 0, 17.62 * T / (243.12 + T),
                                22.46 * T / (272.62 + T)))
    if prop == 'p':
        return p, .02 * p + 5.
    x = .622 * p / (1e5 - p)
    return x, .024 * x + 1e-4


def evaluate(f, T, place, lay):
    if lay == 'scalar':
        return np.array([f(float(t)) for t in T])
    if lay == 'vector':
        a = T.copy()
    elif lay == 'matrix':
        a = np.resize(T, (len(T) // 3, 3)).copy()
    elif lay == 'fortran':
        a = np.asfortranarray(np.resize(T, (len(T) // 3, 3)))
    elif lay == 'strided':
        a = np.repeat(T, 2)[::2]
    else:
        a = T[::-1].copy()[::-1]
    keep = a.copy()
    if place:
        o = np.full(a.shape, np.nan)
        f(a, o)
    else:
        o = f(a)
    if not np.array_equal(a, keep):
        raise AssertionError('temperatures changed')
    return np.asarray(o).reshape(-1)


def run(case):
    import multisim as ms
    r = Result()
    mod = getattr(ms, case['mod'])
    if case['f'] == 'numbers':
        return numbers(r, mod)
    f = getattr(mod, case['f'], None)
    if f is None:
        if case['mod'] == 'matprops':
            r.fail('no such function: ' + case['f'], 'missing')
        r.outcome = 'only in one module'
        return r
    prop, fluid, place = NAMES[case['f']]
    lo, hi = dict(w=(0., 100.), a=(-20., 100.), h=(-10., 80.))[fluid]
    T = np.arange(lo, hi + case['h'] / 2, case['h'])
    if case['lay'] in ('matrix', 'fortran'):
        T = T[:len(T) // 3 * 3]
    got = evaluate(f, T, place, case['lay'])
    r.see(case['f'], case['lay'], np.round(got, 12))
    r.transitions += len(T)
    r.validated += len(T)
    ref, tol = table(prop, fluid, T)
    err = np.abs(got - ref) - tol
    if not (err <= 0).all():
        i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
        r.fail('%s(%g) = %.9g, table %.9g +- %.3g' % (
            case['f'], T[i], got[i], ref[i], tol[i]), 'table')
        return r
    base = evaluate(f, T, place, 'vector')
    if not np.allclose(got, base, rtol=1e-13, atol=0):
        r.fail('%s: other values for %s arrays' % (case['f'], case['lay']),
               'layout')
    d2 = np.abs(np.diff(base, 2)).max()
    if d2 > 1e-3 * case['h'] * np.ptp(base):
        r.fail('%s jumps by %.3g' % (case['f'], d2), 'smooth')
    # the other form of the same property
    for g, (q, fl, pl) in NAMES.items():
        if (q, fl) == (prop, fluid) and g != case['f'] and hasattr(mod, g):
            o = evaluate(getattr(mod, g), T, pl, 'vector')
            if not np.allclose(o, base, rtol=1e-12, atol=0):
                r.fail('%s and %s differ' % (case['f'], g), 'forms')
    other = getattr(ms, 'pf' if case['mod'] == 'matprops' else 'matprops')
    if hasattr(other, case['f']):
        o = evaluate(getattr(other, case['f']), T, place, 'vector')
        if not np.allclose(o, base, rtol=1e-12, atol=0):
            r.fail('%s differs between the modules' % case['f'], 'modules')
    r.outcome = fluid
    return r


def numbers(r, mod):
    v = np.array([-3., -.2, -1e-4, 0., 1e-4, .2, 3.])
    for L in (.01, .5):
        for ny in (3e-7, 1.8e-6):
            want = np.array([abs(x) * L / ny for x in v])
            o = np.full(v.shape, np.nan)
            mod.get_Re_water(v.copy(), L, ny, o)
            for got in (o, np.asarray(mod.Re_water_return(v.copy(), L, ny))):
                r.validated += len(v)
                if not np.allclose(got, want, rtol=1e-12, atol=0):
                    r.fail('Reynolds number %s, expected %s' % (got, want),
                           'Re')
    for Ts in (-10., 20., 21., 80.):
        for Ti in (-5., 20., 35.):
            for Pr, ny, L in ((.708, 1.5e-5, .1), (.708, 2e-5, 1.3),
                              (7., 1e-6, .02)):
                want = abs(Ts - Ti) * 9.81 * L ** 3 * Pr / (
                    (Ti + 273.15) * ny ** 2)
                for a, b, K in ((Ts, Ti, 273.15), (Ts + 273.15,
                                                   Ti + 273.15, 0.)):
                    got = mod.rayleigh_number(a, b, Pr, ny, K, L)
                    r.validated += 1
                    if abs(got - want) > 1e-9 * want + 1e-12:
                        r.fail('Rayleigh number %g, expected %g' % (
                            got, want), 'Ra')
    r.transitions += r.validated
    r.see('numbers')
    r.outcome = 'numbers'
    return r
