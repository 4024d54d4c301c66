"""Planted bugs whose demonstration compares a run with recorded numbers."""
import json
import os
import sys

S = 'multisim/simenv.py'
F = 'multisim/precomp_funs.py'
C = 'multisim/controls.py'
K = 'multisim/parts/controllers.py'
H = 'multisim/parts/chp_plant.py'
HERE = '/verif/tools/seeds'
GOLD = json.load(open(HERE + '/gold.json')) \
    if os.path.exists(HERE + '/gold.json') else {}
END = '''
import numpy as np
v = np.ravel(np.asarray(v, dtype=float))
if 'GOLD_OUT' in os.environ:
    open(os.environ['GOLD_OUT'], 'w').write(repr([float(x) for x in v]))
    raise SystemExit(0)
gold = np.array(%s)
bad = len(v) != len(gold) or not np.allclose(v, gold, rtol=%g, atol=%g)
print('values  ', list(np.round(v, 6)))
print('expected', list(np.round(gold, 6)))
raise SystemExit(int(bad))
'''


def last(*names):
    return 'v = np.concatenate([np.ravel(s.parts[n].res[-1]) for n in %r])' % (
        list(names),)


D = [
 dict(id='C25-restore', prop='C25',
  needs='a rejected trial step in a network of several parts',
  breaks='the retry starts from port temperatures of the rejected step, '
         'heat moves between parts that never was there',
  edits=[(S, '''                        self.ports_all[:] = self.__parr_bkp
                        # count failed steps''',
             '''                        # count failed steps''')],
  demo='''
n = net([P('p', .2, T_init=20.), ['pipe', 'x', dict(length=.6, grid_points=4,
         T_init=[20., 95., 20., 95.])], ['pipe', 'y', dict(length=.6,
         grid_points=4, T_init=[5., 60., 5., 60.])]],
        chain('p', 'x', 'y'), {'BC_a': 90., 'BC_z': 20.})
s = run(n, 2., rtol=1e-4, atol=1e-4, max_stepsize=1.)
v = np.concatenate([np.ravel(s.parts[q].res[-1]) for q in 'xy'])
'''),
 dict(id='C27-errlast', prop='C27',
  needs='several parts, of which the last one is quiet while an earlier one '
        'changes quickly',
  breaks='the truncation error of all parts but the last one is ignored',
  edits=[(F, '    err += trnc_err\n', '    err = trnc_err\n')], nth=0,
  demo='''
n = net([P('p', .15, T_init=20.), ['pipe', 'x', dict(length=1., grid_points=5,
         T_init=20.)], ['pipe', 'y', dict(length=30., grid_points=20,
         T_init=20.)]], chain('p', 'x', 'y'), {'BC_a': 90., 'BC_z': 20.})
s = run(n, 3., rtol=1e-4, atol=1e-4)
v = [len(s.time_vec), *np.ravel(s.parts['x'].res[-1])]
'''),
 dict(id='C28-buoyall', prop='C28',
  needs='a storage with an inversion between two layers and stable layers '
        'elsewhere',
  breaks='stable layers are mixed as well as inverted ones',
  edits=[(F, 'lam_mean[Nu_idx] *= Nu[Nu_idx] * corr_f',
             'lam_mean *= Nu.max() * corr_f')], nth=0,
  demo='''
n = net([P('p', 0., T_init=20.), ['tes', 't', dict(grid_points=6,
         T_init=[80., 60., 40., 50., 30., 20.])]], chain('p', 't'),
        {'BC_a': 20., 'BC_z': 20.})
s = run(n, 60., max_stepsize=5.)
v = np.ravel(s.parts['t'].res[-1])
'''),
 dict(id='C14-mean', prop='C14',
  needs='steps longer than the spacing of a time series',
  breaks='the mean over a long step includes a point after its end',
  edits=[(S, '''int(new_idx)
                            + 1
                        ].mean()''', '''int(new_idx)
                            + 2
                        ].mean()''')],
  demo='''
n = net([P('p', .05), ['conn3', 'c', {}], P('r', .02)],
        links((bc('a'), ['c', 'A']), (['c', 'B'], ['p', 'in']),
              (['p', 'out'], bc('z')), (['c', 'C'], ['r', 'in']),
              (['r', 'out'], bc('y'))),
        {'BC_a': {'series': [[i * .25, 30. + 7 * (i % 3)]
                             for i in range(40)]}, 'BC_z': 20., 'BC_y': 20.})
s = run(n, 5., max_stepsize=.8)
v = np.ravel(s.parts['c'].res)[::3]
'''),
 dict(id='C12-slope', prop='C12',
  needs='a controller with a slope limit and steps other than 1 s',
  breaks='the slope limits the change per step, not per second',
  edits=[(C, 'current_slope = (self.cv - self._prev_cv) / timestep',
             'current_slope = self.cv - self._prev_cv')],
  demo='''
n = net([['pump', 'k', dict(start_massflow=.01, lower_limit=0.,
         upper_limit=1., maximum_flow=1.)]],
        links((bc('e'), ['k', 'in']), (['k', 'out'], bc('x'))),
        {'BC_e': {'series': [[i, 60. - 4. * (i % 8)] for i in range(40)]},
         'BC_x': 20.},
        [pid('kc', 'k', 'k', 0, 62., Kp=.02, slope=[-.05, .05])])
s = run(n, 12., max_stepsize=.37)
v = np.ravel(s.parts['k'].res_dm)
'''),
 dict(id='C22-iterm', prop='C22',
  needs='a continuous PID sub-controller that is held off after having '
        'collected an integral',
  breaks='the integral survives the time in which the master holds the '
         'controller off',
  edits=[(C, '''                    if pid:  # for PID controllers
                        # also erase i-term since no CV means no error:
                        self.i_term = 0.0''', '''                    if pid:
                        self.error = 0.0''')],
  demo='''
T = {'series': [[i, 30. if i % 20 < 10 else 60.] for i in range(60)]}
n = net([['pump', 'k', dict(start_massflow=.1, lower_limit=0.,
          upper_limit=1., maximum_flow=1.)], ['pump', 'm', dict(
          start_massflow=.01, lower_limit=0., upper_limit=1.,
          maximum_flow=1.)], P('p', .3)],
        links((bc('e'), ['k', 'in']), (['k', 'out'], bc('x')),
              (bc('f'), ['m', 'in']), (['m', 'out'], bc('y')),
              (bc('a'), ['p', 'in']), (['p', 'out'], bc('z'))),
        {'BC_e': 20., 'BC_x': 20., 'BC_f': 20., 'BC_y': 20., 'BC_a': T,
         'BC_z': 20.},
        [bang('mc', 'm', 'p', 'out', 45.),
         pid('kc', 'k', 'p', 'in', 65., terms='PI', Kp=.001, Ki=.0005,
             anti_windup=50., sub_controller=True,
             master_type='controller', master_controller='mc',
             dependency_kind='sequential')])
s = run(n, 50., max_stepsize=1.)
v = np.ravel(s.parts['k'].res_dm)[::20]
'''),
 dict(id='C18-anycell', prop='C18',
  needs='a running CHP plant of which a cell other than the first one is '
        'above 110 degC',
  breaks='the emergency shutdown looks at the first cell only',
  edits=[(H, ') or np.any(self.T > self._T_chp_in_max_emrgncy):',
             ') or self.T[0] > self._T_chp_in_max_emrgncy:')],
  demo='''
n = net([P('p', .02, T_init=50.), ['chp', 'c', dict(
        CHP, length=8., T_init=[50., 60., 113., 113.], chp_on_at_start=True,
        start_modulation=1., ctrl_required=False,
        time_series=[[i, 1.] for i in range(40)])]], chain('p', 'c'),
        {'BC_a': 50., 'BC_z': 20.})
s = run(n, 20., max_stepsize=1.)
v = np.ravel(s.parts['c']._chp_state)[::3]
'''),
 dict(id='C16-index', prop='C16',
  needs='two time series of equal length and start, with different spacing',
  breaks='the second series is read at the times of the first one instead '
         'of being refused',
  edits=[(S, 'assert np.all(self._dyn_BC_timevec == time_series.index.values'
             '), (', 'assert self._dyn_BC_timevec[0] == '
             'time_series.index.values[0], (')],
  demo='''
n = net([P('p', .1)], links((bc('a'), ['p', 'in']), (['p', 'out'], bc('z'))),
        {'BC_a': {'series': [[i, 20. + i] for i in range(20)]},
         'BC_z': {'series': [[2 * i, 20. + i] for i in range(20)]}})
try:
    run(n, 5.)
    v = [1.]
except AssertionError:
    v = [0.]
'''),
 dict(id='C17-volume', prop='C17',
  needs='a port of a storage given by volume, in the lower half of a layer',
  breaks='the port ends up in the next layer',
  edits=[('multisim/parts/tes.py', '''                    value[0] = round(
                        (value[0] - (self.V_cell / 2 - 1e-9)) / self.V_cell
                    )''', '''                    value[0] = round(value[0] / self.V_cell)''')],
  demo='''
v = []
for pos in (.02, .035, .09, .14):
    n = net([P('p', .1, T_init=20.), P('r', .1, T_init=80.), ['tes', 't', dict(
             grid_points=4, volume=.2, T_init=20., new_ports={
                 'x': [pos, 'volume']})]],
            links((bc('a'), ['p', 'in']), (['p', 'out'], ['t', 'in']),
                  (bc('b'), ['r', 'in']), (['r', 'out'], ['t', 'x']),
                  (['t', 'out'], bc('z'))),
            {'BC_a': 20., 'BC_b': 80., 'BC_z': 20.})
    s = run(n, 5., max_stepsize=1.)
    v += list(np.ravel(s.parts['t'].res[-1]))
'''),
 dict(id='C20-emergency', prop='C20',
  needs='a heated pipe with a single cell at 110 degC or more',
  breaks='the heater goes on although one of its cells is too hot',
  edits=[(F, 'if np.any(T_ext >= emergency_shutdown):',
             'if np.mean(T_ext) >= emergency_shutdown:')],
  demo='''
n = net([P('p', 0., T_init=20.), ['heated', 'h', dict(length=2., heat=3000.,
         grid_points=4, T_init=[20., 112., 20., 20.])]], chain('p', 'h'),
        {'BC_a': 20., 'BC_z': 20.})
s = run(n, 5., max_stepsize=1.)
v = np.ravel(s.parts['h'].res_dQ)[1:]
'''),
 dict(id='C21-capacity', prop='C21',
  needs='a stationary heat exchanger with different flows on both sides',
  breaks='cold side receives more heat than the hot side gives',
  edits=[(F, '''        # for the demand side:
        P_dmd = P_sup * R_sup
''', '''        # for the demand side:
        P_dmd = P_sup * min(R_sup, 1.0)
''')],
  demo='''
from multisim import precomp_funs as pf
n = net([P('p', .3, T_init=70.), P('r', .1, T_init=20.), ['hex', 'h', {}]],
        links((bc('a'), ['p', 'in']), (['p', 'out'], ['h', 'sup_in']),
              (['h', 'sup_out'], bc('y')), (bc('b'), ['r', 'in']),
              (['r', 'out'], ['h', 'dmd_in']), (['h', 'dmd_out'], bc('z'))),
        {'BC_a': 70., 'BC_b': 20., 'BC_y': 20., 'BC_z': 20.})
s = run(n, 2.)
v = np.ravel(s.parts['h'].res[-1])
'''),
 dict(id='C23-iqr', prop='C23',
  needs='a measured series whose quartiles fall between two values',
  breaks='error normalised with wrong quartiles',
  edits=[('multisim/utility_functions.py',
          'q3, q1 = np.percentile(y, [75, 25])',
          'q3, q1 = np.sort(y)[[3 * len(y) // 4, len(y) // 4]]')],
  demo='''
from multisim import utility_functions as uf
y = np.array([1., 4., 2., 8., 5., 7.])
v = [uf.normalized_err(y, y + .5, e, 'IQR') for e in ('MSE', 'RMSE', 'MAE')]
'''),
 dict(id='C13-deadtime', prop='C13',
  needs='a dead time that no step boundary hits, longer than one step',
  breaks='the process value is interpolated from the wrong end',
  edits=[(F, '''            ) / (dt_arr[dt_idx] - dt_arr[dt_idx - 1]) * (
                deadtime - dt_arr[dt_idx - 1]
            )''', '''            ) / (dt_arr[dt_idx] - dt_arr[dt_idx - 1]) * (
                dt_arr[dt_idx] - deadtime
            )''')],
  demo='''
T = {'series': [[i, 20. + i * (i % 5)] for i in range(40)]}
n = net([['pump', 'k', dict(start_massflow=.01, lower_limit=0.,
         upper_limit=1., maximum_flow=1.)], P('p', .3)],
        links((bc('e'), ['k', 'in']), (['k', 'out'], bc('x')),
              (bc('a'), ['p', 'in']), (['p', 'out'], bc('z'))),
        {'BC_e': 20., 'BC_x': 20., 'BC_a': T, 'BC_z': 20.},
        [pid('kc', 'k', 'p', 'in', 90., Kp=.005, deadtime=1.37)])
s = run(n, 12., max_stepsize=.5)
v = np.ravel(s.parts['k'].res_dm)[::9]
'''),
 dict(id='C26-lid', prop='C26',
  needs='a storage whose top and bottom layers differ in temperature',
  breaks='heat loss of the upper lid is that of the lower one',
  edits=[(F, 'UA_amb_lid[0] * (T_amb[0] - T_ext[1]) / mcp[0]',
             'UA_amb_lid[-1] * (T_amb[0] - T_ext[1]) / mcp[0]')],
  nth='all',
  demo='''
n = net([P('p', 0., T_init=20.), ['tes', 't', dict(grid_points=4, T_amb=20.,
         insulation_thickness=.005, T_init=[90., 70., 40., 10.])]],
        chain('p', 't'), {'BC_a': 20., 'BC_z': 20.})
s = run(n, 300., max_stepsize=30.)
v = np.ravel(s.parts['t'].res[-1])
''', tol=(1e-7, 1e-6)),
 dict(id='C29-shutdown', prop='C29',
  needs='a boiler that is switched off by its upper sensor while it runs',
  breaks='the gas boiler module stops firing at once instead of within 10 s',
  edits=[('multisim/parts/part_modules/suppliers.py',
          'slope=(-gasb_pth / 10, gasb_pth / 10)',
          'slope=(-gasb_pth, gasb_pth / 10)')],
  demo='''
from multisim.parts.part_modules import suppliers
s = new_env(60.)
with quiet():
    populate(s, dict(parts=[['tes', 't', dict(T_init=[74., 60., 50., 50.])]],
                     links=[]))
    suppliers.gasboiler(s, 20e3, None, None, None, ff_connector={'t': 'in'},
                        ltrf_connector={'t': 'out'}, gasboiler_ctrl=dict(
                            on_sens_part='t', on_sens_port=1, setpoint=70.,
                            off_sens_part='t', off_sens_port=0,
                            off_val=74.5, theta_ff_gasb=80.))
    s.initialize_sim()
    s.start_sim()
v = np.ravel(s.parts['ph_gasb_1'].res_dQ)[::9]
'''),
 dict(id='C29-idlepump', prop='C29',
  needs='a hot water demand that stops while the circulation goes on',
  breaks='the hot water pump of the fresh water station goes on running '
         'without demand',
  edits=[('multisim/parts/part_modules/consumers.py',
          "master_part='pwp_cw_{0}'.format(segment_name)",
          "master_part='pwp_rc_{0}'.format(segment_name)")],
  demo='''
import types
import pandas as pd
from multisim.parts.part_modules import consumers
s = new_env(8.)
d = series([[2 * i, .06 if i < 2 else 0.] for i in range(7)])
with quiet():
    populate(s, dict(parts=[['tes', 't', dict(T_init=70., new_ports={
        'm': [2, 'index']})]], links=[]))
    consumers.lowex_phwrc(s, types.SimpleNamespace(wfl=800.), d,
                          np.float64(.1), ff_connector={'t': 'in'},
                          rf_connector={'t': 'out'}, rc_connector={'t': 'm'})
    s.initialize_sim()
    s.start_sim()
x = np.array(s.time_vec)
v = [np.interp(t, x, np.ravel(s.parts['pwp_phw_ff_1'].res_dm))
     for t in (1., 3., 7., 8.)]
''', tol=(1e-4, 1e-6)),
]
SEEDS = []
for d in D:
    if not d['demo']:
        continue
    r, a = d.pop('tol', (1e-6, 1e-6))
    d['demo'] = 'import os\nimport numpy as np\n' + d['demo'] + END % (
        GOLD.get(d['id']), r, a)
    SEEDS.append(d)
