"""C29: the ready-made plant modules."""
import itertools
import types

import numpy as np
import pandas as pd

from mc.core import Result
from mc.ctrlref import REF, clip
from mc.models import ctrl, pid
from mc.nets import SPECS, T0, ms, new_env, populate, quiet

META = dict(
    title='Ready-made plant modules are complete and obey their control laws',
    statement=(
        'The ready-made modules of parts.part_modules - gas boiler, CHP '
        'plant without flue gas heat exchanger, space heating, fresh water '
        'station (lowex_phwrc) and storage charging system (speicherladesys) '
        '- can be added to any plant at the ports named by the user, under '
        'any segment name and several times, and give a complete model that '
        'is accepted and runs. The boiler is switched on while its on sensor '
        'is below setpoint and off above off_val at its off sensor, with at '
        'most its thermal power and in no less than 10 s; the CHP plant is '
        'requested likewise by its on sensor and the end of its return pipe. '
        'Their pumps hold theta_ff at cell 4 of the boiler or plant by a PI '
        'law, run only while heat is released, and at most with the flow '
        'that carries the full power over theta_ff - 60 K (CHP: theta_ff - '
        'off_val) at 4180 J/(kg K). The demand pumps deliver the demands '
        'given. The mixing valves hold 65 degC (fresh water), '
        'theta_ff_phwstore (charging) or the forward temperature demanded '
        'at the start (space heating, whose boiler fires only while its '
        'valve is open) and pumps hold 60 degC hot water by the PI laws in '
        'the module; flows through all parts follow from pumps and openings. '
        'Pipe cross sections scale with power or demand, unless '
        'adjust_pipes is False.'),
    quantifier=dict(over=['configurations', 'inputs', 'histories'], text=(
        'all modules, sizes, setpoints, sensor positions, ports, demands and '
        'initial storage temperatures; every step of every run')),
    why_tests_cant='no test builds a module; the laws relate every recorded '
                   'step to the one before',
    anchors=dict(
        files=['multisim/parts/part_modules/suppliers.py',
               'multisim/parts/part_modules/consumers.py',
               'multisim/utility_functions.py'],
        mechanism=[
            dict(name='suppliers', where='suppliers.py: gasboiler, '
                 'chp_with_fghex'),
            dict(name='consumers', where='consumers.py: space_heating, '
                 'lowex_phwrc, speicherladesys'),
            dict(name='tables', where='utility_functions.py: '
                 'database_import, adjust_pipes'),
        ],
        state=[dict(name='cv', meaning='last demand of each controller',
                    where='Controls.cv')],
        observe_at=['res', 'res_dm', 'res_dQ', 'time_vec'],
        hook_needed=None),
    technique='exhaustive enumeration of module settings run in closed loop '
              'on the real code; every trace replayed through reference '
              'controllers and flow relations, suppliers also compared with '
              'a plant written down part by part',
    level_note=('Full product of listed sizes, setpoints, sensors, ports and '
                'initial states per module; runs of 15 to 60 s (CHP: 900 s, boiler: 200 s).'),
)
PROPERTY = 'C29'
RULE = '(module, power or demand, setpoints, sensors, ports, initial state)'
ASSUMPTIONS = ['a sub-controller acts after its master',
               'a module adds the parts and controllers under the names it '
               'has now (they are how a user attaches meters)']
BOUNDS = 'one storage per module, runs of 15 to 60 s (CHP: 900 s, boiler: 200 s) (thorough: 150 s)'
PT = 'EN10255_medium'
TES = dict(volume=.1, grid_points=16, outer_diameter=.4,
           shell_thickness=5e-3, new_ports={'hi': [2, 'index'],
                                            'lo': [13, 'index'],
                                            'mid': [7, 'index']},
           insulation_thickness=.1, insulation_lambda=.035, T_amb=25.,
           pipe_specs={'all': {'pipe_type': PT, 'DN': 'DN50'}})
COLD = [70. - 2 * i for i in range(16)]
INIT = {'50': 50., '80': 80., 'strat': COLD,
        'edge': [71.5 - .3 * i for i in range(16)]}


def spec(dn, factor, adjust):
    from multisim import utility_functions as ut
    x = {'all': {'pipe_type': PT, 'DN': dn}}
    return ut.adjust_pipes({'a': (x, factor)})['a'] if adjust else x


# ---------------------------------------------------------------- plants
def plant(case, builder):
    """Storage(s) with open ends that are not used, and the module(s)."""
    s = new_env(case.get('tf', 40.))
    ports = case['ports']
    free = [p for p in ('in', 'out', 'hi', 'lo', 'mid') if p not in ports]
    parts, bcs, lnk = [], {}, []
    for n in case['segs']:
        parts.append(['tes', 'tes' + n, dict(TES, T_init=INIT[case['T']])])
        # the ends that are not used: through flow of .02 kg/s, nothing else
        a, b = free[0], free[-1]
        parts.append(['pump', 'fill' + n, dict(flow=.02, grid_points=2,
                                               T_init=30.)])
        rest = [p for p in free[1:-1]]
        lnk += [[['BC', 'BC_f' + n], ['fill' + n, 'in']],
                [['fill' + n, 'out'], ['tes' + n, a]]]
        if case['m'] == 'heating':      # both ends of the building are open
            parts.append(['pump', 'drain' + n, dict(flow=.02, grid_points=2,
                                                    T_init=30.)])
            lnk += [[['tes' + n, b], ['drain' + n, 'in']],
                    [['drain' + n, 'out'], ['BC', 'BC_d' + n]]]
        else:
            lnk.append([['tes' + n, b], ['BC', 'BC_d' + n]])
        bcs.update({'BC_f' + n: 30., 'BC_d' + n: 40.})
        for k in rest:
            parts.append(['pump', 'z' + k + n, dict(flow=0., grid_points=2,
                                                    T_init=30.)])
            lnk += [[['BC', 'BC_' + k + n], ['z' + k + n, 'in']],
                    [['z' + k + n, 'out'], ['tes' + n, k]]]
            bcs['BC_' + k + n] = 30.
    net = dict(parts=parts, links=lnk, bcs=bcs)
    with quiet():
        populate(s, net)
        for n in case['segs']:
            builder(s, case, n)
        s.initialize_sim()
        s.start_sim()
    return s


def module(s, case, n):
    """The module under test."""
    from multisim.parts.part_modules import consumers, suppliers
    t, (a, b) = 'tes' + n, case['ports'][:2]
    k = dict(segment_name=n, adjust_pipes=case['adj'])
    df = pd.DataFrame()
    m = case['m']
    if m == 'boiler':
        suppliers.gasboiler(
            s, case['pth'], None, None, None, ff_connector={t: a},
            ltrf_connector={t: b}, gasboiler_ctrl=dict(
                on_sens_part=t, on_sens_port=case['on'],
                setpoint=case['sp'], off_sens_part=t,
                off_sens_port=case['off'], off_val=case['ov'],
                theta_ff_gasb=case['ff']), calculations_df=df, **k)
    elif m == 'chp':
        suppliers.chp_with_fghex(
            s, None, .5, (t, a), (t, b), None, None,
            chp_kwds=dict(
                power_electrical=case['pth'], eta_el=.32733,
                p2h_ratio=.516796, modulation_range=(.5, 1),
                theta_ff=case['ff'], heat_spread='range',
                heated_cells=(1, 5), no_control=False, lower_limit=0.,
                upper_limit=1.,
                pipe_specs={'all': {'pipe_type': PT, 'DN': 'DN80'}}),
            chp_ctrl=dict(ctrld_part=t, on_sensor_port=case['on'],
                          setpoint=case['sp'], off_val=case['ov'],
                          chp_mode='heat'), calculations_df=df, **k)
    elif m == 'heating':
        consumers.space_heating(
            s, None, demand(case), case['pth'], case['ff'],
            tes_ff_connector={t: a}, tes_rf_connector={t: b},
            calculations_df=df, **k)
    else:
        lhs = types.SimpleNamespace(wfl=case['wfl'], v_stor_phw=.4,
                                    theta_ff=case.get('tff', 75.))
        x = (s, lhs, demand(case), np.float64(case['rc']))
        if m == 'fresh':
            consumers.lowex_phwrc(*x, ff_connector={t: a},
                                  rf_connector={t: b},
                                  rc_connector={t: case['ports'][2]},
                                  calculations_df=df, **k)
        else:
            consumers.speicherladesys(
                *x, theta_ff_phwstore=case['ff'], store_init=case['st'],
                ff_connector={t: a}, rf_connector={t: b}, **k)
    s.c29_calc = df


def demand(case):
    """Demand on a 10 s grid; for space heating with temperatures."""
    n = int(case.get('tf', 40.) / 10) + 3
    idx = pd.DatetimeIndex([T0 + pd.Timedelta(seconds=10 * i)
                            for i in range(n)])
    d = pd.Series([case['dmd'][i % len(case['dmd'])] for i in range(n)],
                  index=idx, name='sh_dmd')
    if case['m'] != 'heating':
        return d
    return pd.DataFrame(dict(
        sh_dmd=d, theta_ff=[case['sf'] + (i % 3) for i in range(n)],
        theta_rf=[40. + 2. * (i % 2) for i in range(n)]), index=idx)


# --------------------------------------------- suppliers, part by part
def size(case):
    if case['m'] == 'boiler':
        return case['pth'] / 150e3 / (case['ff'] - 60.) * 15.
    return case['pth'] / .516796 / 38.7e3 * 9.5 / (case['ff'] - case['ov'])


def top(case):
    """Largest flow of the supply pump."""
    if case['m'] == 'boiler':
        return case['pth'] / (4180 * (case['ff'] - 60.))
    return case['pth'] / .516796 / (4180 * (case['ff'] - case['ov']))


def laws(case, n):
    """-> controllers of a supplier, in the order they act."""
    t = 'tes' + n
    m = case['m']
    heat = 'ph_gasb_' + n if m == 'boiler' else 'CHP' + n
    pump = ('pwp_gasb_ff_' if m == 'boiler' else 'pwp_chp_ff_') + n
    ramp = [-case['pth'] / 10, case['pth'] / 10] if m == 'boiler' else [0, 0]
    two = ['two', 'c_heat' + n, ctrl(
        heat, t if m == 'boiler' else 'p_chp_rf_' + n,
        case['off'] if m == 'boiler' else 26, case['ov'],
        CV_saturation=[0., case['pth'] if m == 'boiler' else 1.],
        on_sensor_part=t, on_sensor_port=case['on'],
        activation_value=case['sp'], activation_sign='lower',
        deactivation_sign='greater', slope=ramp, silence_slope_warning=True)]
    k, tc, aw = (.5, 31 / 13, .3) if m == 'boiler' else (.65, 40 / 16, .1)
    flow = pid('c_pump' + n, pump, heat, 4, case['ff'], terms='PI',
               process_CV_mode='part_specific', CV_saturation=[0., 1.],
               loop_tuning='ziegler-nichols', Kp_crit=k, T_crit=tc,
               anti_windup='auto_%g' % aw, slope=[-.1, .1], invert=True,
               sub_controller=True, master_type='part', master_part=heat,
               master_variable='_dQ_heating', master_variable_index=0,
               dependency_kind='concurrent')
    flow[2].pop('Kp')
    return [two, flow]


def byhand(s, case, n):
    t, (a, b) = 'tes' + n, case['ports'][:2]
    f, u, adj = size(case), top(case), case['adj']
    common = dict(T_amb=25., store_results=True)
    lim = dict(start_massflow=0., lower_limit=0., upper_limit=u,
               maximum_flow=u)
    if case['m'] == 'boiler':
        ins = dict(common, length=2.5, insulation_lambda=.035)
        h, p, q = 'ph_gasb_' + n, 'pwp_gasb_ff_' + n, 'p_gasb_rf_' + n
        parts = [
            ['pump', p, dict(ins, grid_points=8, insulation_thickness=.1,
                             T_init=[case['ff']] * 8,
                             pipe_specs=spec('DN50', f, adj), **lim)],
            ['heated', h, dict(ins, grid_points=6, insulation_thickness=.2,
                               T_init=[75.] * 6, heat_spread='range',
                               heated_cells=[1, 5], no_control=False,
                               lower_limit=0., upper_limit=case['pth'],
                               pipe_specs=spec('DN125', f, adj))],
            ['pipe', q, dict(ins, grid_points=8, insulation_thickness=.1,
                             T_init=[25.] * 8,
                             pipe_specs=spec('DN50', f, adj))]]
    else:
        ins = dict(common, insulation_lambda=.03, insulation_thickness=.05)
        h, p, q = 'CHP' + n, 'pwp_chp_ff_' + n, 'p_chp_rf_' + n
        parts = [
            ['chp', h, dict(
                common, length=2.5, grid_points=6, insulation_thickness=.2,
                insulation_lambda=.035, T_init=71., connect_fluegas_hex=False,
                power_electrical=case['pth'], eta_el=.32733,
                p2h_ratio=.516796, modulation_range=(.5, 1),
                theta_ff=case['ff'], heat_spread='range',
                heated_cells=(1, 5), no_control=False, lower_limit=0.,
                upper_limit=1., pipe_specs=spec('DN80', f, adj))],
            ['pump', p, dict(ins, length=4, grid_points=15,
                             T_init=[case['ff']] * 15,
                             pipe_specs=spec('DN40', f, adj), **lim)],
            ['pipe', q, dict(ins, length=9, grid_points=27,
                             T_init=[45.] * 27,
                             pipe_specs=spec('DN40', f, adj))]]
    lnk = [[[t, b], [q, 'in']], [[q, 'out'], [h, 'in']],
           [[h, 'out'], [p, 'in']], [[p, 'out'], [t, a]]]
    populate(s, dict(parts=parts, links=lnk, ctrls=laws(case, n)))


# ------------------------------------------------------------- reading
def cell(s, part, c):
    """Stored temperatures of one cell."""
    p = s.parts[part]
    st = CELLS.get(part.rstrip('1b'))
    x = np.array(p.res).reshape(len(s.time_vec), -1)
    if st and x.shape[1] == len(st):
        c = st.index(c)
    return x[:, c]


CELLS = {'p3v_phwrc_ff_mix_': (0, 1, 5, 6, 7),
         'pb_phwrc_dmd_': (0, 1, 2, 3, 5),
         'p3v_sh_tes_rf_': (0, 3, 4, 5),
         'sps_p3v_ff_hex_': (0, 2, 3, 4), 'sps_p_ff_store_': (0, 7),
         'p_chp_rf_': (0, 1, 13, 25, 26)}


def flow(s, part, k=0):
    return np.abs(np.array(s.parts[part].res_dm).reshape(
        len(s.time_vec), -1)[:, k])


def same(r, a, b, what, tol):
    d = np.abs(np.asarray(a) - np.asarray(b))
    if d.shape and d.size and not d.max() <= tol:
        i = np.unravel_index(np.nanargmax(d), d.shape)
        r.fail('%s: %.9g in step %d, expected %.9g' % (
            what, np.asarray(a)[i], i[0],
            np.broadcast_to(b, d.shape)[i]), what.split(' ')[0])
    r.validated += 1
    return not r.viol


def replay(r, t, law, pv, act, lo, hi, f=1., gate=None, sensor=None,
           what='', tol=1e-6):
    """Feed the records to the reference; -> its demand per step."""
    ref = REF[law[0]](law[2])
    out = np.zeros(len(t))
    for i in range(1, len(t) - 1):
        g = None if gate is None else bool(gate[i])
        cv = ref.step(t[i] - t[i - 1], pv[i], law[2]['setpoint'], gate=g,
                      sensor=None if sensor is None else sensor[i])
        out[i + 1] = want = clip(cv * f, lo, hi)
        r.transitions += 1
        if act is None or np.isnan(act[i + 1]):
            continue
        r.see(what, round(float(want), 6), round(float(pv[i]), 5))
        if not abs(act[i + 1] - want) <= tol * max(hi, 1e-9):
            r.fail('%s: %.9g in step %d, its controller demands %.9g' % (
                what, act[i + 1], i + 1, want), what.split(' ')[0])
            break
    return out


# ------------------------------------------------------------- judging
def suppliers_ok(r, s, case):
    t = np.array(s.time_vec)
    for n in case['segs']:
        two, pump = laws(case, n)
        heat, p = two[2]['actuator'], pump[2]['actuator']
        q = ('p_gasb_rf_' if case['m'] == 'boiler' else 'p_chp_rf_') + n
        dQ = np.array(s.parts[heat].res_dQ).reshape(len(t), -1)[:, 0]
        on = cell(s, 'tes' + n, case['on'])
        if case['m'] == 'boiler':
            want = replay(r, t, two, cell(s, 'tes' + n, case['off']), dQ, 0.,
                          case['pth'], sensor=on, what='boiler ' + n)
            gate = np.append(want[1:], 0.) != 0.
        else:
            gate = dQ != 0.
        replay(r, t, pump, cell(s, heat, 4), flow(s, p), 0., top(case),
               top(case), gate=gate, what='pump ' + n)
        if r.viol:
            return
        for x in (heat, q):
            if not same(r, flow(s, x)[1:], flow(s, p)[1:], 'flow ' + x,
                        1e-12):
                return
        r.nontrivial = dQ.max() > 0 and flow(s, p).max() > 0
    c = s.c29_calc
    col = ('Gasboiler_' if case['m'] == 'boiler' else 'CHP') + n
    same(r, c.loc[['max_pump_flow', 'pipe_scaling'], col].values.astype(float),
         np.array([top(case), size(case)]), 'calculations', 1e-9)
    with quiet():
        h = plant(case, byhand)
    if len(h.time_vec) != len(t):
        r.fail('steps: %d, but %d of the same plant written down part by '
               'part' % (len(t), len(h.time_vec)), 'steps')
        return
    same(r, t, np.array(h.time_vec), 'times', 1e-6)
    for x in h.parts:
        a, b = s.parts[x], h.parts[x]
        same(r, np.array(a.res_dm).reshape(len(t), -1)[:, 0],
             np.array(b.res_dm).reshape(len(t), -1)[:, 0], 'flow of ' + x,
             1e-6)
        ra = np.array(a.res).reshape(len(t), -1)
        rb = np.array(b.res).reshape(len(t), -1)
        if ra.shape[1] != rb.shape[1]:
            rb = rb[:, list(STORED[x.rstrip('1b')])]
        same(r, ra, rb, 'temperatures of ' + x, 1e-5)


STORED = {'pwp_gasb_ff_': (0, 1, 4, 7), 'p_gasb_rf_': (0, 1, 4, 6, 7),
          'pwp_chp_ff_': (0, 1, 7, 14), 'p_chp_rf_': (0, 1, 13, 25, 26)}


def valve_law(sp):
    return pid('v', 'v', 'v', 0, sp, terms='PI', time_domain='discrete',
               Kp=.04, Ki=.01, anti_windup=1., CV_saturation=[0., 1.])


def ratio(a, b):
    return np.where(b > 1e-9, a / np.where(b > 1e-9, b, 1.), np.nan)


def series_at_start(case, t, d):
    x = 10. * np.arange(len(d))
    return np.interp(np.concatenate([[0.], t[:-1]]), x, d.values)


def heating_ok(r, s, case):
    t = np.array(s.time_vec)
    d = demand(case)
    sf = d['theta_ff'].iloc[0]
    for n in case['segs']:
        dm = flow(s, 'pwp_sh_ff_' + n)
        same(r, dm[1:], series_at_start(case, t, d['sh_dmd'])[1:],
             'demand ' + n, 1e-9)
        gb = flow(s, 'p_sh_gasb_ff_' + n)
        v2, v1 = 'p3v_sh_tes_gb_' + n, 'p3v_sh_tes_rf_' + n
        a1 = flow(s, v1, 0)
        same(r, flow(s, 'ph_sh_gasb_' + n)[1:], gb[1:], 'flow of the boiler',
             1e-12)
        o1 = ratio(a1, dm - gb)
        o2 = ratio(gb, dm)
        replay(r, t, valve_law(sf + 1e-2), cell(s, v1, 5), o1, .01, .99,
               what='valve tes/return ' + n)
        w2 = replay(r, t, valve_law(sf), cell(s, v2, 2), o2, .01, .99,
                    what='valve boiler/tes ' + n)
        pth = case['pth']
        # gain over the whole series of forward temperatures
        k = pth * (case['ff'] - d['theta_ff'].mean()) / 500
        law = pid('b', 'b', 'b', 0, case['ff'], terms='PI', Kp=k, Ki=k / 10,
                  anti_windup=pth / 100, CV_saturation=[0., pth],
                  slope=[-pth / 30, pth / 30])
        h = 'ph_sh_gasb_' + n
        dQ = np.array(s.parts[h].res_dQ).reshape(len(t), -1)[:, 0]
        gate = np.append(w2[1:], .01) != .01
        replay(r, t, law, cell(s, h, 4), dQ, 0., pth, gate=gate,
               what='boiler ' + n)
        r.nontrivial = dQ.max() > 0
    c = s.c29_calc['space_heating' + n]
    f = d['sh_dmd'].mean() / (d['theta_ff'].max() - d['theta_rf'].max()) * 25
    g = case['pth'] / 150e3 / (case['ff'] - d['theta_rf'].mean()) * 15
    same(r, c.loc[['pipe_scaling_sh', 'pipe_scaling_sh_gasboiler']]
         .values.astype(float), np.array([f, g]), 'calculations', 1e-9)


def fresh_ok(r, s, case):
    t = np.array(s.time_vec)
    d = demand(case)
    fp, fr = d.mean() / .020426520552047665, case['rc'] / .11555245060523046
    for n in case['segs']:
        cw, rc = flow(s, 'pwp_cw_' + n), flow(s, 'pwp_rc_' + n)
        same(r, cw[1:], series_at_start(case, t, d)[1:], 'demand ' + n, 1e-9)
        same(r, rc[1:], case['rc'], 'circulation ' + n, 1e-12)
        p1, p2 = flow(s, 'pwp_phw_ff_' + n), flow(s, 'pwp_rc_ff_' + n)
        out = np.array(s.parts['pb_phwrc_dmd_' + n].res_dm)
        same(r, np.abs(out[1:, -1]), (cw + rc)[1:], 'supply ' + n, 1e-9)
        law = pid('p', 'p', 'p', 0, 60., terms='PI', CV_saturation=[0., 1.],
                  loop_tuning='ziegler-nichols', Kp_crit=.23, T_crit=15.,
                  rule='pessen-int', anti_windup='auto')
        replay(r, t, law, cell(s, 'pb_phwrc_dmd_' + n, 1), p1, 0., .5 * fp,
               .5 * fp, gate=cw != 0., what='pump hot water ' + n)
        law = pid('p', 'p', 'p', 0, 60., terms='PI', time_domain='discrete',
                  Kp=.005, Ki=1 / 600, anti_windup=1.,
                  CV_saturation=[0., 1.])
        replay(r, t, law, cell(s, 'p_rc_dmd_' + n, 1), p2, 0., .2 * fr,
               .2 * fr, what='pump circulation ' + n)
        mix = flow(s, 'p_rc_to_mix' + n)
        o = 1. - ratio(mix, p1 + p2)
        replay(r, t, valve_law(65.), cell(s, 'p3v_phwrc_ff_mix_' + n, 7), o,
               0., 1., what='mixing valve ' + n)
        same(r, flow(s, 'p_phw_rf_' + n)[1:], p1[1:], 'return ' + n, 1e-12)
        same(r, np.abs(np.array(s.parts['pb_rc_rf_' + n].res_dm)[1:, -1]),
             np.abs(p2 - mix)[1:], 'circulation return ' + n, 1e-9)
        r.nontrivial = p1.max() > 0
    c = s.c29_calc['LowEx' + n]
    same(r, c.loc[['pipe_scaling_phw', 'pipe_scaling_rc', 'pipe_scaling_sum']]
         .values.astype(float), np.array([fp, fr, fp / 3 + fr * 2 / 3]),
         'calculations', 1e-9)


def charge_ok(r, s, case):
    t = np.array(s.time_vec)
    d = demand(case)
    P = (d.mean() * 47. + case['rc'] * 5.) * 4180
    u1 = P * 5 / (4180 * (case['ff'] - 55.))
    u2 = P * 5 / (4180 * (60.15 - 53.))
    for n in case['segs']:
        cw, rc = flow(s, 'sps_pwp_cw_' + n), flow(s, 'sps_pwp_rc_' + n)
        same(r, cw[1:], series_at_start(case, t, d)[1:], 'demand ' + n, 1e-9)
        same(r, rc[1:], case['rc'], 'circulation ' + n, 1e-12)
        same(r, flow(s, 'sps_p_phwrc_dmd_' + n)[1:], (cw + rc)[1:],
             'supply ' + n, 1e-9)
        p1 = flow(s, 'sps_pwp_ff_hex_' + n)
        p2 = flow(s, 'sps_pwp_rf_store_' + n)
        same(r, flow(s, 'sps_p_ff_store_' + n)[1:], p2[1:], 'charging ' + n,
             1e-12)
        law = pid('p', 'p', 'p', 0, 58.5, terms='PI', CV_saturation=[0., 1.],
                  loop_tuning='ziegler-nichols', Kp_crit=9., T_crit=600.,
                  rule='some-os', anti_windup='auto_.25')
        replay(r, t, law, cell(s, 'sps_store_phw_' + n, 14), p2, 0., u2, u2,
               what='pump storage ' + n)
        mix = flow(s, 'sps_p_rf_hex_to_mix_' + n)
        o = 1. - ratio(mix, p1)
        replay(r, t, valve_law(case['ff']), cell(s, 'sps_p3v_ff_hex_' + n, 4),
               o, 0., 1., what='mixing valve ' + n)
        if p1[1:].max() > u1 * (1 + 1e-9):
            r.fail('pump of the charging exchanger at %g, limit %g' % (
                p1.max(), u1), 'pumplimit')
        off = np.flatnonzero(p2[1:-1] == 0.) + 2
        if (p1[off] != 0).any():
            r.fail('pump of the charging exchanger runs without charging',
                   'pumpgate')
        r.nontrivial = p1.max() > 0 or p2.max() == 0


JUDGE = dict(boiler=suppliers_ok, chp=suppliers_ok, heating=heating_ok,
             fresh=fresh_ok, charge=charge_ok)


def cases(tier):
    out = []
    big = tier == 'thorough'
    tf = 150. if big else 60.
    P2 = [['in', 'out'], ['hi', 'lo'], ['out', 'mid']]
    segs = [['1'], ['b'], ['1', 'b']]
    for m, pth, ff, adj, T, po, sg, sens in itertools.product(
            ('boiler', 'chp'), (20e3, 45e3), (75., 82.), (True, False),
            INIT, P2, segs, ((5, 6), (9, 2))):
        if not big and (po != P2[0]) + (sg != segs[0]) + (not adj) \
                + (T == '80') + (sens != (5, 6)) + (m == 'chp' and pth != 20e3) > 1:
            continue
        c = dict(m=m, pth=pth, ff=ff, adj=adj, T=T, ports=po, segs=sg,
                 on=sens[0], off=sens[1], sp=69., ov=72.5, tf=tf)
        if m == 'boiler' and pth == 45e3:
            c['pth'] = 180e3
        if m == 'chp':
            c.update(ff=ff + 2., tf=900., ov=46. if T == 'edge' else 72.5)
        else:
            c['tf'] = 200.
        out.append(c)
    for pth, ff, sf, adj, T, dm, po, sg in itertools.product(
            (15e3, 40e3), (70., 80.), (55., 66.), (True, False), INIT,
            ([.3], [.2, .5, .3], [.25, 0., .4]), P2, segs):
        if not big and (po != P2[0]) + (sg != segs[0]) + (not adj) \
                + (pth != 15e3) + (ff != 70.) > 1:
            continue
        out.append(dict(m='heating', pth=pth, ff=ff, sf=sf, adj=adj, T=T,
                        dmd=dm, ports=po, segs=sg, tf=tf))
    P3 = [['in', 'out', 'mid'], ['hi', 'lo', 'mid']]
    for wfl, rc, dm, adj, T, po, sg in itertools.product(
            (800., 1607.), (.06, .12), ([.05], [.06, 0., 0.]),
            (True, False), INIT, P3, segs[:2]):
        if not big and (po != P3[0]) + (sg != segs[0]) + (not adj) \
                + (wfl != 800.) + (T in ('50', 'strat')) > 1:
            continue
        out.append(dict(m='fresh', wfl=wfl, rc=rc, dmd=dm, adj=adj, T=T,
                        ports=po, segs=sg, tf=tf / 4))
    for rc, dm, ff, st, adj, T, po, sg in itertools.product(
            (.06, .12), ([.05], [.06, 0., 0.]), (64., 67.5), (52., 60.),
            (True, False), INIT, P2[:2], segs[:2]):
        if not big and (po != P2[0]) + (sg != segs[0]) + (not adj) \
                + (T in ('50', 'strat')) + (rc != .06) > 1:
            continue
        out.append(dict(m='charge', wfl=1607., rc=rc, dmd=dm, ff=ff, st=st,
                        adj=adj, T=T, ports=po, segs=sg, tf=tf / 4))
    return out


def warm():
    seen = set()
    for c in cases('quick'):
        if c['m'] not in seen:
            seen.add(c['m'])
            run(dict(c, tf=1.))


def run(case):
    r = Result()
    try:
        s = plant(case, module)
    except (AssertionError, TypeError, KeyError, AttributeError,
            ValueError) as e:
        r.fail('%s: the plant is refused: %s: %s' % (
            case['m'], type(e).__name__, str(e)[:300]), 'refused')
        return r
    JUDGE[case['m']](r, s, case)
    r.outcome = case['m']
    return r
