"""Small-network builder on MultiSim's public API.

A network is plain data, so that every explored case can be written to a
replay file:

    {"parts": [[kind, name, {params}], ...],
     "links": [[[part, port], [part, port]], ...],     # 'BC' as part: open port
     "bcs":   {"BC_x": temperature or {"series": [[t, v], ...]}},
     "ctrls": [[kind, name, {params}], ...]}
"""
import contextlib
import io
import os
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter('ignore')
import multisim as ms  # noqa: E402

BC = 'BoundaryCondition'
SPECS = {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN25'}}
BASE = dict(
    insulation_thickness=1e-2,
    insulation_lambda=0.035,
    T_init=20.0,
    T_amb=20.0,
    material='carbon_steel',
    pipe_specs=SPECS,
)
# start date of every time series used here (MultiSim works on naive stamps)
T0 = pd.Timestamp('2019-09-01 00:00:00')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def series(points, name='x'):
    """[[seconds, value], ...] -> pandas Series with a time index."""
    idx = pd.DatetimeIndex(
        [T0 + pd.Timedelta(seconds=p[0]) for p in points]
    )
    return pd.Series([float(p[1]) for p in points], index=idx, name=name)


def _args(p, **defaults):
    a = dict(BASE)
    a.update(defaults)
    for k, v in p.items():
        if k in ('T_init',) and isinstance(v, (list, tuple)):
            v = np.array(v, dtype=float)
        if k == 'DN':
            a['pipe_specs'] = {'all': {
                'pipe_type': p.get('ptype', 'EN10255_medium'), 'DN': v}}
            continue
        if k == 'ptype':
            continue
        if k == 'time_series' and isinstance(v, (list, tuple)):
            v = series(v)
        a[k] = v
    return a


def add_part(s, kind, name, p):
    p = dict(p)
    ap = ms.ap
    if kind == 'pipe':
        s.add_part(ap.Pipe, name=name, **_args(p, length=1.0, grid_points=3))
    elif kind == 'pump':
        # PipeWithPump; constant flow when 'flow' is given
        if 'flow' in p:
            f = p.pop('flow')
            p.update(start_massflow=p.pop('start', f), ctrl_required=False,
                     const_val=f)
        s.add_part(ap.PipeWithPump, name=name,
                   **_args(p, length=1.0, grid_points=3))
    elif kind == 'valve':
        if 'opening' in p:
            f = p.pop('opening')
            p.update(start_portA_opening=p.pop('start', f),
                     ctrl_required=False, const_val=f)
            p.setdefault('lower_limit', 0.0)
            p.setdefault('upper_limit', 1.0)
        s.add_part(ap.PipeWith3wValve, name=name,
                   **_args(p, length=1.2, grid_points=4, valve_location=1))
    elif kind == 'branch':
        s.add_part(ap.PipeBranched, name=name,
                   **_args(p, length=1.2, grid_points=4,
                           new_ports={'p1': [2, 'index']}))
    elif kind == 'tes':
        s.add_part(ap.Tes, name=name,
                   **_args(p, volume=0.2, grid_points=4, outer_diameter=0.5,
                           shell_thickness=5e-3, new_ports=None))
    elif kind == 'heated':
        p.pop('heat', None)
        s.add_part(ap.HeatedPipe, name=name,
                   **_args(p, length=1.0, grid_points=4, heat_spread='all',
                           lower_limit=0.0, upper_limit=1e4))
    elif kind == 'conn3':
        s.add_part(ap.Connector3w, name=name,
                   **dict(dict(material='carbon_steel', pipe_specs=SPECS),
                          **p))
    elif kind == 'mixv':
        a = dict(material='carbon_steel', pipe_specs=SPECS,
                 lower_limit=0.0, upper_limit=1.0)
        p.pop('free', None)
        a.update(p)
        s.add_part(ap.MixingValve, name=name, **a)
    elif kind == 'rawpump':
        a = dict(material='carbon_steel', pipe_specs=SPECS)
        if 'flow' in p:
            f = p.pop('flow')
            a.update(start_massflow=f, no_control=True, dm_const=f)
        if isinstance(p.get('time_series'), (list, tuple)):
            p['time_series'] = series(p['time_series'])
        a.update(p)
        s.add_part(ap.Pump, name=name, **a)
    elif kind == 'hexnum':
        a = dict(HEx_type='plate_hex', passes=1, flow_type='counter',
                 grid_points=4, plates=10, max_channels='supply',
                 insulation_thickness=0.1, insulation_lambda=0.035,
                 pipe_specs=SPECS, T_init=35.0, T_amb=20.0,
                 Reynolds_correction=1e-6)
        a.update(hexspec())
        a.update(p)
        s.add_part(ap.HexNum, name=name, **a)
    elif kind == 'hex':
        a = dict(HEx_type='plate_hex', passes=1,
                 plates=10, max_channels='supply',
                 insulation_thickness=0.1, insulation_lambda=0.035,
                 pipe_specs=SPECS, T_init=35.0, T_amb=20.0,
                 Reynolds_correction=7750)
        a.update(hexspec())
        a.update(p)
        s.add_part(ap.HeatExchanger, name=name, **a)
    elif kind == 'chp':
        s.add_part(ap.CHPPlant, name=name, **_args(p))
    else:
        raise KeyError(kind)


def hexspec():
    d = os.path.join(os.path.dirname(ms.__file__), 'data_tables',
                     'heat_exchangers.pkl')
    db = pd.read_pickle(d)
    return {k: v for k, v in dict(db.Plate.SWEP.B25T).items()
            if not (isinstance(v, float) and np.isnan(v))}


TUPLES = ('slope', 'CV_saturation', 'anti_windup')
CTRL = {'pid': 'PID', 'bang': 'BangBang', 'two': 'TwoSensors'}


def new_env(tf=1.0, save=False, disk=None, **tkw):
    s = ms.Models(suppress_printing=True)
    s.set_disksaving(save=save, **(disk or {}))
    s.set_timeframe(timeframe=float(tf), adaptive_steps=True, **tkw)
    s.set_solver(solver='heun', allow_implicit=False)
    return s


def hold(actuator, value, mode, top=2.0):
    """P controller with zero gain and saturation from `value` upwards."""
    return dict(
        actuator=actuator, process_CV_mode=mode,
        CV_saturation=(float(value), top), controlled_part=actuator,
        controlled_port=0, setpoint=0.0, off_state=0.0,
        sub_controller=False, reference_part='none', time_domain='continuous',
        deadtime=0.0, slope=(0, 0), invert=False, terms='P',
        loop_tuning='manual', Kp=0.0)


def populate(s, net):
    """Replay the net's build actions in the order listed."""
    for kind, name, p in net['parts']:
        add_part(s, kind, name, p)
    for b, t in net.get('bcs', {}).items():
        if isinstance(t, dict):
            s.add_open_port(b, constant=False,
                            temperature=series(t['series']))
        else:
            s.add_open_port(b, constant=True, temperature=float(t))
    for (a, b), (c, d) in net['links']:
        s.connect_ports(first_part=BC if a == 'BC' else a, first_port=b,
                        scnd_part=BC if c == 'BC' else c, scnd_port=d)
    for kind, name, p in net['parts']:
        # actuators that insist on a controller: hold them at a fixed value
        if kind == 'heated' and 'heat' in p:
            s.add_control(ms.ap.PID, name='hold_' + name,
                          **hold(name, p['heat'], 'direct', 1e9))
        elif kind == 'mixv' and not p.get('free'):
            s.add_control(ms.ap.PID, name='hold_' + name,
                          **hold(name, p['port_A_init'], 'part_specific'))
    for kind, name, p in net.get('ctrls', []):
        p = {k: tuple(v) if isinstance(v, list) and k in TUPLES else
             series(v['series']) if isinstance(v, dict) and 'series' in v
             else v for k, v in p.items()}
        s.add_control(getattr(ms.ap, CTRL[kind]), name=name, **p)
    return s


def build(net, tf=1.0, save=False, disk=None, **tkw):
    return populate(new_env(tf, save, disk, **tkw), net)


def run(net, tf=1.0, save=False, disk=None, **tkw):
    with quiet():
        s = build(net, tf, save, disk, **tkw)
        s.initialize_sim()
        s.start_sim()
    return s
