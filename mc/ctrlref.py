"""Reference controllers, written from the documented control laws.

Each class is a plain state machine; `step` is fed the values the real
controller can see and returns the control variable.  Nothing is imported from
the code under test.
"""
import math


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def zn(terms, kcrit, tcrit, rule):
    """Ziegler-Nichols coefficients (Kp, Ki, Kd)."""
    if terms == 'P':
        return .5 * kcrit, 0., 0.
    if terms == 'PI':
        k = .45 * kcrit
        return k, k / (.85 * tcrit), 0.
    if terms == 'PD':
        k = .55 * kcrit
        return k, 0., k * .15 * tcrit
    f, n, v = {'classic': (.6, .5, .125), 'pessen-int': (.7, .4, .15),
               'some-os': (.33, .5, .33), 'no-os': (.2, .5, .33)}[rule]
    k = f * kcrit
    return k, k / (n * tcrit), k * v * tcrit


class Delay:
    """Linear interpolation of the samples at (now - deadtime); 25 before 0."""

    def __init__(self, deadtime):
        self.D = deadtime
        self.t = [0.]
        self.v = [25.]

    def step(self, dt, pv):
        self.t.append(self.t[-1] + dt)
        self.v.append(pv)
        if not self.D:
            return pv
        x = self.t[-1] - self.D
        if x <= 0:
            return 25.
        i = len(self.t) - 1
        while self.t[i - 1] > x:
            i -= 1
        a, b = self.t[i - 1], self.t[i]
        out = self.v[i - 1] + (self.v[i] - self.v[i - 1]) * (x - a) / (b - a)
        if i > 2:                      # forget what can never be needed again
            del self.t[:i - 2], self.v[:i - 2]
        return out


class Base:
    def __init__(self, p):
        self.p = p
        self.cv = 0.
        self.sat = p['CV_saturation']
        self.off = float(p['off_state'])
        self.slope = p['slope']
        self.inv = -1. if p['invert'] else 1.
        self.delay = Delay(p['deadtime'])

    def step(self, dt, pv, sp, gate=None, sensor=None):
        """gate: None or bool 'the master allows the action'."""
        old = self.cv
        pvd = self.delay.step(dt, pv)
        u = self.law(dt, pvd if self.delayed else pv, sp, sensor)
        if gate is False:
            u = self.off
            self.gated()
        n, q = self.slope
        if n or q:
            u = clip(u, old + n * dt, old + q * dt)
        self.cv = u
        return u

    delayed = True

    def gated(self):
        pass

    def state(self):
        return (round(self.cv, 9),)


class PID(Base):
    def __init__(self, p):
        super().__init__(p)
        t = p['terms']
        if p['loop_tuning'] == 'ziegler-nichols':
            k = zn(t, p['Kp_crit'], p['T_crit'], p.get('rule'))
        elif p['loop_tuning'] == 'tune':
            k = (p['Kp'], 0., 0.)
        else:
            k = tuple(p['K' + x.lower()] if x in t else 0. for x in 'PID')
        m = p.get('K_mult', [1., 1., 1.])
        self.kp, self.ki, self.kd = [a * b for a, b in zip(k, m)]
        aw = p.get('anti_windup', math.inf)
        if 'I' not in t or p['loop_tuning'] == 'tune':
            aw = math.inf
        elif isinstance(aw, str):
            aw = (float(aw.split('_')[1]) if '_' in aw else 1.) / self.ki
        self.aw = aw
        self.fc = p.get('cutoff_freq') if 'D' in t and \
            p.get('filter_derivative') else None
        self.e1 = self.e2 = self.i = self.d = 0.
        self.discrete = p['time_domain'] == 'discrete'

    def law(self, dt, pv, sp, _):
        e = sp - pv
        raw = e - 2 * self.e1 + self.e2 if self.discrete and self.ki \
            else e - self.e1
        if self.fc:
            rc = 1 / (2 * math.pi * self.fc)
            self.d += dt / (rc + dt) * (raw - self.d)
        else:
            self.d = raw
        if self.discrete:
            if self.ki:
                u = clip(self.cv, -self.aw, self.aw) + self.inv * (
                    self.kp * (e - self.e1) + self.ki * dt * e
                    + self.kd * self.d / dt)
            else:
                u = self.inv * (self.kp * e + self.kd * self.d / dt)
        else:
            self.i = clip(self.i + dt * e, -self.aw, self.aw)
            u = self.inv * (self.kp * e + self.ki * self.i
                            + self.kd * self.d / dt)
        self.e2, self.e1 = self.e1, e
        return clip(u, *self.sat)

    def gated(self):
        self.i = 0.

    def state(self):
        return tuple(round(x, 9) for x in
                     (self.cv, self.e1, self.e2, self.i, self.d))


class Bang(Base):
    def law(self, dt, pv, sp, _):
        h = self.p['hysteresis']
        lo, hi = pv < sp - abs(h) / 2, pv > sp + abs(h) / 2
        if h < 0:
            lo, hi = hi, lo
        return self.inv * self.sat[1] if lo else self.off if hi else self.cv


class Two(Base):
    delayed = False

    def law(self, dt, pv, sp, sensor):
        p = self.p
        u = self.cv
        a = p['activation_value']
        if (sensor < a if p['activation_sign'] == 'lower' else sensor > a):
            u = self.inv * self.sat[1]
        if (pv < sp if p['deactivation_sign'] == 'lower' else pv > sp):
            u = self.off
        return u


REF = {'pid': PID, 'bang': Bang, 'two': Two}


def debruijn(n, order):
    """Cyclic sequence over range(n) containing every word of that length."""
    a = [0] * n * order
    out = []

    def db(t, p):
        if t > order:
            if order % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:order - 1]
