"""Drives the real controllers letter by letter and compares with mc.ctrlref.

The plant is a pump `p` (the actuator) and a pipe `q` whose cells are the
sensors; `m` is a second pump for master controllers.  A letter sets the
sensors and calls every controller once, as the simulation does after a step.
"""
import itertools

from mc.ctrlref import REF, clip, debruijn
from mc.models import P, bc, links, net as mknet
from mc.nets import build, quiet

TOL = 1e-9


def plant(ctrls, lo=0., hi=10., top=2., parts=(), lnk=()):
    pump = dict(start_massflow=0., lower_limit=lo, upper_limit=hi,
                maximum_flow=top)
    ps = [['pump', 'p', pump], ['pipe', 'q', {}], *parts]
    ls = [[bc('a'), ['p', 'in']], [['p', 'out'], ['q', 'in']],
          [['q', 'out'], bc('z')], *lnk]
    return mknet(ps, ls, {'BC_a': 50., 'BC_z': 20.}, ctrls)


MASTER = [['pump', 'm', dict(start_massflow=0., lower_limit=0.,
                             upper_limit=10., maximum_flow=2.)]]
MLINKS = [[bc('b'), ['m', 'in']], [['m', 'out'], bc('y')]]


def bcs(n):
    n['bcs'].update(BC_b=50., BC_y=20.)
    return n


def env(net):
    with quiet():
        s = build(net)
        s.initialize_sim()
    return s


def actuate(kind_p, cv, lo, hi, top):
    """What reaches the pump."""
    if kind_p['process_CV_mode'] == 'part_specific':
        cv = cv * top
    return clip(cv, lo, hi)


def words(letters, first, order):
    """All words of length `first` from the start, then one run that contains
    every word of length `order`."""
    n = len(letters)
    for w in itertools.product(range(n), repeat=first):
        yield [letters[i] for i in w]
    yield [letters[i] for i in debruijn(n, order)]


def drive(r, net, word_list, sp_fn=None, lo=0., hi=10., top=2.,
          master=None, gate=None, note=''):
    """Run every word on a fresh environment, compare each step.

    letter: dict(dt=, pv=, [ref=], [m=], [s=]) -> cells 0 (pv), 1 (master
    sensor / reference) and 2 (second sensor) of pipe q.
    """
    ctrls = {c[1]: c for c in net['ctrls']}
    tag = repr(net['ctrls'])
    for w in word_list:
        s = env(net)
        T = s.parts['q'].T
        refs = {n: REF[c[0]](c[2]) for n, c in ctrls.items()}
        act = {n: 0. for n in refs}
        for k, x in enumerate(w):
            T[0] = x['pv']
            T[1] = x.get('m', 30.)
            T[2] = x.get('s', 30.)
            for n, c in list(s.ctrls.items()):
                kind, _, p = ctrls[n]
                own = T[p['controlled_port']]
                sp = p.get('setpoint')
                if p['reference_part'] != 'none':
                    sp = T[p['reference_port']] + p['ref_SP_diff']
                g = None
                if p['sub_controller']:
                    if p['master_type'] == 'controller':
                        mp = ctrls[p['master_controller']][2]
                        on = bool(act[p['master_controller']] != mp['off_state'])
                    else:
                        on = bool(T[p['master_variable_index']] != 0)
                    g = on == (p['dependency_kind'] == 'concurrent')
                c.ctrl(x['dt'])
                want = refs[n].step(x['dt'], float(own), float(sp), g,
                                    float(T[2]))
                act[n] = actuate(p, want, lo, hi, top)
                got = float(c.cv)
                flow = float(s.parts[p['actuator']].dm[0])
                r.transitions += 1
                r.states.add(hash((tag, n, refs[n].state())) & (2 ** 62 - 1))
                if not abs(got - want) <= TOL * max(1., abs(want)):
                    r.fail('controller %s gives %.12g, the law %.12g after %r'
                           % (n, got, want, w[max(0, k - 3):k + 1]), 'cv')
                    return
                if not abs(flow - act[n]) <= TOL * max(1., abs(want)):
                    r.fail('actuator of %s is at %.12g instead of %.12g '
                           '(limits %g..%g, cv %g) after %r' % (
                               n, flow, act[n], lo, hi, want,
                               w[max(0, k - 3):k + 1]), 'actuator')
                    return
        r.validated += 1
