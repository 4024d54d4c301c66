S = 'multisim/simenv.py'
SEEDS = [
 dict(id='C01-sum3', prop='C01',
  needs='a part with four ports whose flow is fixed by three other ports',
  breaks='mass balance of a storage with three feeding pumps',
  edits=[(S, '''                    if i == 1:
                        continue
                    port[0][0] -= dm_view[0]''', '''                    if i == 1:
                        continue
                    if i > 2:
                        break
                    port[0][0] -= dm_view[0]''')],
  demo='''
t4 = ['tes', 't', {'new_ports': {'x': [1, 'index'], 'y': [2, 'index']}}]
L = [[bc(n), [n, 'in']] for n in 'prs'] + [[['p', 'out'], ['t', 'in']],
     [['r', 'out'], ['t', 'x']], [['s', 'out'], ['t', 'y']],
     [['t', 'out'], ['q', 'in']], [['q', 'out'], bc('z')]]
s = run(net([t4, P('p', .05), P('r', .12), P('s', .2), ['pipe', 'q', {}]], L,
            {'BC_' + c: 20.0 for c in 'prsz'}), .1)
f = s.parts['q'].res_dm[1].ravel()[0]
print('flow', f)
raise SystemExit(int(bool(abs(f - .37) > 1e-9)))
'''),
 dict(id='C01-side', prop='C01',
  needs='a pump at a side port of a three-way valve pipe, opening not 0.5',
  breaks='valve splits by the inverse ratio when driven from a side port',
  edits=[(S, 'port[0][0] = port[2][0] * port[3][0] / port[4][0]',
             'port[0][0] = port[2][0] * port[4][0] / port[3][0]')],
  demo='''
L = links((bc('a'), ['p', 'in']), (['p', 'out'], ['v', 'A']),
          (['v', 'B'], ['q', 'in']), (['q', 'out'], bc('b')),
          (['v', 'AB'], bc('c')))
bad = 0
for o in (.3, .5, .8):
    for port in 'AB':
        other = 'B' if port == 'A' else 'A'
        L = links((bc('a'), ['p', 'in']), (['p', 'out'], ['v', port]),
                  (['v', other], ['q', 'in']), (['q', 'out'], bc('b')),
                  (['v', 'AB'], bc('c')))
        s = run(net([P('p', .1), ['valve', 'v', {'opening': o}],
                     ['pipe', 'q', {}]], L,
                    {'BC_' + c: 20.0 for c in 'abc'}), .1)
        f = abs(s.parts['q'].res_dm[1].ravel()[0])
        e = .1 / o * (1 - o) if port == 'A' else .1 / (1 - o) * o
        print(o, port, f, e)
        bad |= abs(f - e) > 1e-9
raise SystemExit(int(bool(bad)))
'''),
 dict(id='C05-chpflush', prop='C05',
  needs='a running CHP plant and a saving interval that flushes while it runs',
  breaks='after a flush the plant forgets its state, the run continues '
         'differently from the same run kept in memory',
  edits=[('multisim/parts/chp_plant.py', '''        self.res_Pgas[1:, ...] = 0.0
        self._chp_state[0, ...] = self._chp_state[stepnum[0], ...]
        self._chp_state[1:, ...] = 0.0

    def _check_results''', '''        self.res_Pgas[1:, ...] = 0.0
        self._chp_state[:, ...] = 0.0

    def _check_results''')],
  demo='''
n, tf, kw = library()['chp']
a = run(n, tf, **kw)
bad = 0
for k in range(3, 30):
    b = run(n, tf, save=True, disk=dict(path=os.environ['SCRATCH'] + '/',
            sim_name='x%d' % k, save_every_n_steps=k, resample_final=False),
            **kw)
    x, y = a.parts['c']._chp_state, b.parts['c']._chp_state
    if x.shape != y.shape or not np.array_equal(x, y):
        print('differs at interval', k); bad = 1
raise SystemExit(int(bool(bad)))
'''),
 dict(id='C05-reshape3d', prop='C05',
  needs='a numeric heat exchanger and disk saving',
  breaks='the three-dimensional results of a stored run are transposed',
  edits=[(S, '''                        ].values.reshape(-1, *self.parts[part].res.shape[1:]),''',
   '''                        ].values.reshape(
                            -1, *self.parts[part].res.shape[:0:-1]
                        ).swapaxes(1, 2),''')],
  demo='''
n, tf, kw = library()['hexnum']
a = run(n, tf, **kw).parts['h'].res
b = run(n, tf, save=True, disk=dict(path=os.environ['SCRATCH'] + '/',
        sim_name='x', save_every_n_steps=5, resample_final=False),
        **kw).parts['h'].res
print(a.shape, b.shape)
raise SystemExit(int(bool(a.shape != b.shape or not np.array_equal(a, b))))
'''),
 dict(id='C06-eps', prop='C06',
  needs='a system at rest (zero truncation error) with max_stepsize set',
  breaks='steps grow beyond max_stepsize',
  edits=[(S, '''                    self._solver_state[stepnum] = 7
                    # check if step is not above max step:
                    if _h > self.__max_stepsize:
                        _h = self.__max_stepsize  # reduce to max stepsize
''', '''                    self._solver_state[stepnum] = 7
''')],
  demo='''
n = net([P('p', 0.0), ['pipe', 'q', {}]], chain('p', 'q'),
        {'BC_a': 20.0, 'BC_z': 20.0})
s = run(n, 30.0, max_stepsize=.5)
d = np.diff(s.time_vec).max()
print('largest step', d)
raise SystemExit(int(bool(d > .5 + 1e-9)))
'''),
 dict(id='C06-minclamp', prop='C06',
  needs='a rejected step close to min_stepsize',
  breaks='steps fall below min_stepsize although stability does not ask for it',
  edits=[(S, '''                        if _h < self.__min_stepsize:
                            _h = self.__min_stepsize  # increase to min step
                        # reset ports array for retrying step:
                        self.ports_all''', '''                        if _h < self.__min_stepsize * self.__min_factor:
                            _h = self.__min_stepsize  # increase to min step
                        # reset ports array for retrying step:
                        self.ports_all''')],
  demo='''
bad = 0
for name in ('pipe', 'heated', 'tes', 'valve'):
    n, tf, kw = library()[name]
    for mn in (.02, .05, .1, .2):
        s = run(n, tf, min_stepsize=mn, **kw)
        d = np.diff(s.time_vec)
        if d.min() < mn * (1 - 1e-9):
            print(name, mn, d.min()); bad = 1
raise SystemExit(int(bad))
'''),
 dict(id='C06-cfl', prop='C06',
  needs='a flow that is faster inside the storage than through the cell the '
        'check looks at (two opposing pumps)',
  breaks='stability limit of storages only looks at the first cell',
  edits=[('multisim/precomp_funs.py', '''    vN_dm_max = (
        max(dm_top.max(), dm_bot.max(), np.abs(dm_port).max())
        * timestep''', '''    vN_dm_max = (
        max(dm_top[0], dm_bot[-1], np.abs(dm_port).max())
        * timestep''')],
  demo='''
big = dict(length=30.0)
L = links((bc('a'), ['p', 'in']), (['p', 'out'], ['t', 'in']),
          (bc('b'), ['r', 'in']), (['r', 'out'], ['t', 'x']),
          (['t', 'y'], ['q', 'in']), (['q', 'out'], bc('c')),
          (['t', 'out'], bc('d')))
n = net([P('p', .5, **big), P('r', .5, **big), P('q', .5, **big),
         ['tes', 't', {'volume': .004, 'outer_diameter': .1,
                       'new_ports': {'x': [1, 'index'], 'y': [2, 'index']}}]],
        L, {'BC_' + c: 20.0 for c in 'abcd'})
s = run(n, 20.0)
t = s.parts['t']
m = np.abs(t.res_dm[1:]).max(axis=1) * np.diff(s.time_vec)
print('moved', m.max(), 'cell holds', float(t.V_cell) * 1000)
raise SystemExit(int(m.max() > float(t.V_cell) * 1000))
'''),
]
SEEDS = [x for x in SEEDS if x['edits']]
