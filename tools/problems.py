"""Problem generator shared by the checks: potentials, domains, boundary conditions (never taken from the code under test)."""
import math
from expr import X, C, Expr, Piecewise, sin, cos, exp, sqrt


class Prob:
    def __init__(self, name, V, a, b, even=False):
        self.name, self.V, self.a, self.b, self.even = name, Piecewise.wrap(V), float(a), float(b), even

    @property
    def jumps(self):
        return [x for x in self.V.breaks if self.a < x < self.b]

    def fn(self, name='V'):
        return 'fn %s %s' % (name, self.V.text())

    def builder(self):
        j = self.jumps
        return 'jump %d %s' % (len(j), ' '.join(x.hex() for x in j)) if j else 'auto'

    def vmin(self, n=400):
        return min(self.V(self.a + (self.b - self.a) * (i + .5) / n) for i in range(n))

    def vmax(self, n=400):
        return max(self.V(self.a + (self.b - self.a) * (i + .5) / n) for i in range(n))

    def ms(self, obj, tol, builder=None, scalar=None):
        return 'ms %s V %s %s %s %s' % (obj, self.a.hex(), self.b.hex(), float(tol).hex(), builder or self.builder())

    def half(self, obj, tol, builder=None):
        assert self.even and self.a == -self.b
        j = [x for x in self.jumps if x > 0]
        bt = builder or ('jump %d %s' % (len(j), ' '.join(x.hex() for x in j)) if j else 'auto')
        return 'half %s V %s %s %s' % (obj, self.b.hex(), float(tol).hex(), bt)

    def describe(self):
        return '%s on [%g,%g]' % (self.name, self.a, self.b)


def r3(x):
    return float('%.3g' % x)


def fixed_problems():
    P = []
    P.append(Prob('harmonic', X * X, -10, 10, even=True))
    P.append(Prob('mathieu', 2 * cos(2 * X), 0, math.pi))
    b = 20.
    P.append(Prob('coffey-evans', -2 * b * cos(2 * X) + b * b * sin(2 * X) * sin(2 * X), -math.pi / 2, math.pi / 2, even=True))
    P.append(Prob('marletta', 3 * (X - 31) / (4 * (1 + X) * ((4 + X) * (4 + X))), 0, 12))
    P.append(Prob('zero', C(0), 0, math.pi))
    P.append(Prob('airy', X, 0, 15))
    P.append(Prob('paine', 1 / ((X + .1) * (X + .1)), 0, math.pi))
    P.append(Prob('truncated well', Piecewise([C(0), C(-30), C(0)], [-1, 1]), -4, 4, even=True))
    P.append(Prob('quartic double well', X * X * X * X - 12 * X * X, -5, 5, even=True))
    P.append(Prob('steep', exp(X), 0, math.pi))
    P.append(Prob('deep', C(-1000) + 3 * sin(4 * X), -1, 2))
    P.append(Prob('high', C(1000) + X * X, -2, 3))
    P.append(Prob('triple', Piecewise([C(0), C(100), C(0), C(100), C(0)], [-3, -2, 2, 3]), -6, 6, even=True))
    P.append(Prob('lens', 10 * (1 - cos(2 * X)), -8, 8, even=True))
    return P


def random_problem(rng, even=None, kind=None, jumps=None):
    even = rng.random() < .25 if even is None else even
    kinds = ['poly', 'trig', 'gauss', 'morse', 'steps', 'rational', 'mixed', 'piecewise', 'const']
    if jumps is False:
        kinds = [k for k in kinds if k not in ('steps', 'piecewise')]
    if jumps is True:
        kinds = ['steps', 'piecewise']
    kind = kind or rng.choice(kinds)
    L = rng.choice([1, 2, math.pi, 4, 6, 10])
    if even:
        a, b = -L / 2, L / 2
    else:
        a = rng.choice([0., -1., -L / 2, 1.5, -L, -7.25])
        b = a + L
    m = (a + b) / 2
    x = X if m == 0 else X - float(m)
    u = rng.uniform
    s = 4. / L   # scale: x*s in [-2,2]
    t = x * r3(s) if s != 1 else x
    amp = r3(10 ** u(-.5, 1.6)) / L ** 2 * 4
    amp = r3(amp)
    if kind == 'poly':
        e = amp * t * t * r3(u(.3, 3)) + amp * r3(u(-1, 1)) * t * t * t * t * .2
        if not even: e = e + amp * r3(u(-2, 2)) * t + amp * r3(u(-.3, .3)) * t * t * t
    elif kind == 'trig':
        e = amp * r3(u(.3, 2)) * cos(t * r3(u(.5, 4)))
        if not even: e = e + amp * r3(u(-1, 1)) * sin(t * r3(u(.5, 3)))
        else: e = e + amp * r3(u(-1, 1)) * cos(t * r3(u(.5, 5)))
    elif kind == 'gauss':
        c = 0. if even else r3(u(-1, 1))
        e = r3(-amp * u(1, 4)) * exp(-r3(u(.5, 6)) * (t - c) * (t - c))
        if not even: e = e + r3(amp * u(-3, 3)) * exp(-r3(u(.5, 4)) * (t + 1) * (t + 1))
    elif kind == 'morse':
        if even:
            e = r3(amp * u(.1, .6)) * (exp(t) + exp(-t))
        else:
            k = r3(u(.3, .9))
            e = amp * (exp(-2 * k * t) - r3(u(1, 2.5)) * exp(-k * t))
    elif kind == 'rational':
        e = r3(amp * u(-4, 4)) / (1 + r3(u(.5, 4)) * t * t)
        if not even: e = e + amp * .5 * t
    elif kind == 'mixed':
        e = amp * t * t + r3(amp * u(-2, 2)) * cos(r3(u(1, 4)) * t)
        if not even: e = e + r3(u(-1, 1)) * amp * exp(t * .5)
    elif kind == 'const':
        e = C(r3(u(-20, 20)))
    elif kind == 'steps':
        n = rng.randint(1, 4)
        if even:
            br = sorted(r3(u(.1, .9) * L / 2) for _ in range(n))
            br = [b_ for i, b_ in enumerate(br) if i == 0 or b_ - br[i - 1] > 1e-2]
            vs = [r3(u(-1, 1) * amp * 3) for _ in range(len(br) + 1)]
            V = Piecewise([C(v) for v in vs[:0:-1]] + [C(v) for v in vs], [-b_ for b_ in br[::-1]] + br)
        else:
            br = sorted(r3(a + u(.05, .95) * L) for _ in range(n))
            br = [b_ for i, b_ in enumerate(br) if i == 0 or b_ - br[i - 1] > 1e-2]
            V = Piecewise([C(r3(u(-1, 1) * amp * 3)) for _ in range(len(br) + 1)], br)
        return Prob(kind, V, a, b, even)
    elif kind == 'piecewise':
        if even:
            c1 = r3(u(.2, .8) * L / 2)
            out = amp * r3(u(-2, 2)) * t * t
            inn = amp * cos(t * r3(u(.5, 3)))
            return Prob(kind, Piecewise([out, inn, out], [-c1, c1]), a, b, True)
        c1 = r3(a + u(.15, .45) * L)
        c2 = r3(a + u(.55, .9) * L)
        return Prob(kind, Piecewise([amp * t * t, amp * r3(u(-2, 2)) + amp * .5 * t, amp * cos(t * r3(u(.5, 3)))], [c1, c2]), a, b)
    if rng.random() < .15:
        e = e + r3(u(-300, 300))
    return Prob(kind, e, a, b, even)


def random_doublet(rng):
    """even, with a barrier in the middle: pairs of nearly coinciding eigenvalues"""
    u = rng.uniform
    k = rng.choice(['quartic', 'coffey', 'bump', 'box'])
    if k == 'quartic':
        L = rng.choice([4., 5., 6.])
        V = X * X * X * X * r3(u(.5, 2)) - r3(u(6, 30)) * X * X
    elif k == 'coffey':
        L = math.pi / 2
        b = r3(u(8, 30))
        V = -2 * b * cos(2 * X) + r3(b * b) * sin(2 * X) * sin(2 * X)
    elif k == 'bump':
        L = r3(u(1, 5))
        V = r3(u(30, 400)) / L ** 2 * exp(-r3(u(2, 12) / L ** 2) * X * X)
    else:
        L = r3(u(1, 5))
        c = r3(L * u(.2, .6))
        V = Piecewise([C(0), C(r3(u(50, 1500) / L ** 2)), C(0)], [-c, c])
    return Prob('doublet ' + k, V, -L, L, True)


def random_bc(rng):
    k = rng.random()
    if k < .35: return (0., 1.)
    if k < .55: return (1., 0.)
    if k < .6: return (0., r3(rng.uniform(-3, -.1)))
    # |y'/y| stays moderate: a boundary state at E ~ -(y'/y)^2 must be representable (see DESIGN.md, limits)
    y = 0.
    while abs(y) < .1: y = r3(rng.uniform(-2, 2))
    return (y, r3(rng.uniform(-4, 4)))


def bc_txt(bc):
    return '%s %s' % (float(bc[0]).hex(), float(bc[1]).hex())


class SLProb:
    """-(p z')' + q z = E w z on [a, b]"""

    def __init__(self, name, p, q, w, a, b):
        self.name, self.a, self.b = name, float(a), float(b)
        self.p, self.q, self.w = (Piecewise.wrap(f) for f in (p, q, w))

    def fns(self):
        return ['fn p ' + self.p.text(), 'fn q ' + self.q.text(), 'fn w ' + self.w.text()]

    def sl(self, obj, tol):
        return 'sl %s p q w %s %s %s' % (obj, self.a.hex(), self.b.hex(), float(tol).hex())

    def lt(self, obj):
        return 'lt %s p q w %s %s' % (obj, self.a.hex(), self.b.hex())

    def dirs(self, l, r):
        """boundary conditions in (z, z') -> (z, p z')"""
        return (l[0], l[1] * self.p(self.a)), (r[0], r[1] * self.p(self.b))

    def describe(self):
        return '%s on [%g,%g]' % (self.name, self.a, self.b)


def fixed_sl():
    P = []
    P.append(SLProb('p=w=1', C(1), X * X, C(1), -4, 5))
    P.append(SLProb('klotter', C(1), 3 / (4 * X * X), 64 * math.pi ** 2 / (9 * X * X * X * X * X * X), 8 / 7., 8))
    P.append(SLProb('paine2', (2 + .1 * X) * (2 + .1 * X), C(0), 1 / ((2 + .1 * X) * (2 + .1 * X)), 0, 1))
    P.append(SLProb('exponential', exp(X), C(0), exp(X), 0, 2))
    P.append(SLProb('p=x w=1/x', X, 1 / X, 1 / X, 1, 3))
    P.append(SLProb('constants', C(4), C(3), C(.25), -1, 2))
    P.append(SLProb('oscillating', 2 + sin(3 * X), cos(2 * X), 2 + cos(2 * X), 0, 3))
    return P


def random_sl(rng):
    u = rng.uniform
    L = rng.choice([1, 2, 3, 5])
    a = rng.choice([0., -1., 1.5, -L / 2])
    b = a + L
    t = (X - float((a + b) / 2)) * r3(4. / L)

    def positive():
        k = rng.choice(['const', 'lin', 'exp', 'quad', 'trig', 'inv', 'gauss'])
        s = r3(10 ** u(-.7, .7))
        if k == 'const': e = C(s)
        elif k == 'lin': e = s * (r3(u(2.5, 6)) + rng.choice([-1, 1]) * t)
        elif k == 'exp': e = s * exp(r3(u(-.6, .6)) * t)
        elif k == 'quad': e = s * (1 + r3(u(.1, 1)) * t * t)
        elif k == 'trig': e = s * (r3(u(1.5, 3)) + sin(r3(u(.3, 1.5)) * t))
        elif k == 'inv': e = s / (1 + r3(u(.1, .8)) * t * t)
        else: e = s * (.3 + exp(-r3(u(.1, .6)) * t * t))
        return k, e
    kp, p = positive()
    kw, w = positive()
    amp = r3(10 ** u(-1, 1.3))
    kq = rng.choice(['0', 'lin', 'quad', 'trig', 'gauss'])
    q = {'0': C(0), 'lin': amp * t, 'quad': amp * t * t, 'trig': amp * cos(r3(u(.5, 2)) * t), 'gauss': -amp * exp(-1 * t * t)}[kq]
    if rng.random() < .25:       # other units, another place
        k = rng.choice([.01, .1, 10., 100., 1000.])
        p, q, w = p * k, q * k, w * k
    if rng.random() < .15: w = w * r3(10 ** u(-1, 1))
    if rng.random() < .2:
        d = rng.choice([-100., 30., 8., 100.])
        p, q, w = p.subst(X - d), q.subst(X - d), w.subst(X - d)
        a, b = a + d, b + d
    return SLProb('p=%s w=%s q=%s' % (kp, kw, kq), p, q, w, a, b)
