"""Equivalent formulations of a problem (spec/Forms.tla): every generator transforms the definition of the problem and
yields the map of the energies as steps of spec/FormsTrace.tla."""
import copy
from fractions import Fraction
from expr import Piecewise, C, X
from problems import bc_txt


def pmap(f, e, g=None, breaks=None, reverse=False):
    """piecewise f with x replaced by the expression e and the values changed by g"""
    g = g or (lambda t: t)
    p = [g(t.subst(e)) for t in f.pieces]
    b = [(breaks or (lambda t: t))(t) for t in f.breaks]
    return Piecewise(p[::-1], b[::-1]) if reverse else Piecewise(p, b)


def padd(f, k, w=None):
    """f + k w"""
    if w is None: return Piecewise([t + k for t in f.pieces], f.breaks)
    br = sorted(set(f.breaks) | set(w.breaks))
    mids = [br[0] - 1] + [(s + t) / 2 for s, t in zip(br, br[1:])] + [br[-1] + 1] if br else [0]
    return Piecewise([f.piece(m) + k * w.piece(m) for m in mids], br)


class Form:
    """kind ms | half | per | sl;  functions V or p, q, w"""

    def __init__(self, kind, f, a, b, l=None, r=None, K=None):
        self.kind, self.f, self.a, self.b, self.l, self.r, self.K = kind, dict(f), a, b, l, r, K
        self.steps = []
        self.scale = 1.       # energies of the form per energy of the original
        self.offset = 0.

    def copy(self):
        F = copy.copy(self)
        F.f, F.steps = dict(self.f), list(self.steps)
        return F

    def energy(self, E): return self.scale * E + self.offset

    def step(self, k, x):
        if k == 'add': self.offset += x
        else: self.scale, self.offset = self.scale * float(x), self.offset * float(x)
        self.steps.append((k, Fraction(x)))

    def apply(self, g, rng):
        F = self.copy()
        getattr(F, g)(rng)
        return F

    # ------------------------------------------------------------ generators
    def shift(self, rng):
        s = rng.choice([1., -2.5, 17., -100., 400., rng.randint(-999, 999) / 8])
        if self.kind == 'sl': self.f['q'] = padd(self.f['q'], C(s), self.f['w'])
        else: self.f['V'] = padd(self.f['V'], s)
        self.step('add', s)

    def sub(self, e, breaks, reverse=False):
        for n in self.f: self.f[n] = pmap(self.f[n], e, None, breaks, reverse)

    def mirror(self, rng):
        self.sub(0 - X, lambda t: 0 - t, True)
        self.a, self.b = -self.b, -self.a
        if self.l is not None and self.kind != 'half': self.l, self.r = (self.r[0], -self.r[1]), (self.l[0], -self.l[1])   # half: given at the right end, mirrored at the left one
        if self.K is not None:
            a, b, c, d = self.K                      # D K^-1 D
            self.K = (d, b, c, a)

    def move(self, rng):
        if self.kind == 'half': return
        d = rng.choice([1., -3., 8., .5, -100., rng.randint(-99, 99) / 4])
        self.sub(X - d, lambda t: t + d)
        self.a, self.b = self.a + d, self.b + d

    def stretch(self, rng):
        c = rng.choice([2., .5, 3., .75, 1.25])
        self.sub(X / c, lambda t: t * c)
        n = 'q' if self.kind == 'sl' else 'V'
        self.f[n] = Piecewise([t / (c * c) for t in self.f[n].pieces], self.f[n].breaks)
        self.a, self.b = self.a * c, self.b * c
        if self.l is not None: self.l, self.r = (self.l[0], self.l[1] / c), (self.r[0], self.r[1] / c)
        if self.K is not None:
            a, b, cc, d = self.K
            self.K = (a, b * c, cc / c, d)
        self.step('div', 1 / Fraction(c * c))

    def scale_bc(self, v, rng):
        s = rng.choice([2., -1., .125, -3., 1000.])
        return (v[0] * s, v[1] * s)

    def unit(self, rng):
        """scale the boundary conditions"""
        if self.l is None: return
        if self.kind == 'half': self.l = self.r = self.scale_bc(self.l, rng)
        else: self.l, self.r = self.scale_bc(self.l, rng), self.scale_bc(self.r, rng)

    def split(self, rng):
        """the same function given as two pieces"""
        n = rng.choice(sorted(self.f))
        f = self.f[n]
        t = self.a + (self.b - self.a) * rng.choice([.5, .25, rng.random()])
        if self.kind == 'half': t = abs(t) or self.b / 2
        for t in [t] + ([-t] if self.kind == 'half' else []):
            f = self.f[n]
            if t in f.breaks: continue
            k = sum(1 for s in f.breaks if s < t)
            self.f[n] = Piecewise(f.pieces[:k + 1] + f.pieces[k:], f.breaks[:k] + [t] + f.breaks[k:])

    def factor(self, rng):
        """p, q and w times the same factor"""
        s = rng.choice([2., .25, 10., .1])
        for n in self.f: self.f[n] = Piecewise([t * s for t in self.f[n].pieces], self.f[n].breaks)

    def weight(self, rng):
        s = rng.choice([2., .5, 4., .1])
        self.f['w'] = Piecewise([t * s for t in self.f['w'].pieces], self.f['w'].breaks)
        self.step('div', 1 / Fraction(s))

    def rotate(self, rng):
        """cut the period at another point"""
        L = self.b - self.a
        d = self.a + L * rng.choice([.5, .25, rng.random()])
        f = self.f['V']
        left = [(t, p) for t, p in zip([None] + f.breaks, f.pieces)]
        lo = [p for i, p in enumerate(f.pieces) if i == len(f.pieces) - 1 or f.breaks[i] > d]      # pieces meeting [d, b]
        br = [t for t in f.breaks if t > d]
        while br and br[-1] >= self.b: br.pop(); lo.pop()
        hi = [p for i, p in enumerate(f.pieces) if i == 0 or f.breaks[i - 1] < d]                   # pieces meeting [a, d]
        bh = [t for t in f.breaks if t < d]
        while bh and bh[0] <= self.a: bh.pop(0); hi.pop(0)
        self.f['V'] = Piecewise(lo + [p.subst(X - L) for p in hi], br + [self.b] + [t + L for t in bh])
        self.a, self.b = d, d + L

    # ------------------------------------------------------------ commands
    def jumps(self, n='V'):
        return [t for t in self.f[n].breaks if self.a < t < self.b]

    def script(self, o, tol):
        out = ['fn %s%s %s' % (n, o, f.text()) for n, f in self.f.items()]
        j = self.jumps() if self.kind != 'sl' else []
        if self.kind == 'half': j = [t for t in j if t > 0]
        b = 'jump %d %s' % (len(j), ' '.join(t.hex() for t in j)) if j else 'auto'
        a, e, t = self.a.hex(), self.b.hex(), float(tol).hex()
        if self.kind == 'ms': out.append('ms %s V%s %s %s %s %s' % (o, o, a, e, t, b))
        elif self.kind == 'half': out.append('half %s V%s %s %s %s' % (o, o, e, t, b))
        elif self.kind == 'per': out.append('per %s V%s %s %s %s %s %s' % (o, o, a, e, t, b, ' '.join(float(v).hex() for v in self.K)))
        else: out.append('sl %s p%s q%s w%s %s %s %s' % (o, o, o, o, a, e, t))
        return out

    def bc(self, one=False):
        if self.kind == 'per': return ''
        return ' ' + bc_txt(self.l) + ('' if one else ' ' + bc_txt(self.r))

    def describe(self):
        return dict(kind=self.kind, f={n: f.text() for n, f in self.f.items()}, domain=[self.a, self.b], left=self.l, right=self.r, K=self.K)
