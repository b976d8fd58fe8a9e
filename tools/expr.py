"""Functions shared by the harness (as RPN text) and the specification (as Taylor coefficients)."""
from fractions import Fraction
import math, mpmath
from mpmath import mp, mpf
mp.dps = 60
DEC = 50
SC = 10 ** DEC


def toint(v):
    """exact value (float/int/Fraction/mpf) -> int scaled by 10^DEC"""
    if isinstance(v, mpf):
        return int(mpmath.nint(v * SC))
    f = Fraction(v)
    return (f.numerator * SC * 2 + f.denominator) // (2 * f.denominator)


def tomp(v):
    if isinstance(v, Fraction):
        return mpf(v.numerator) / mpf(v.denominator)
    return mpf(v)


def jmul(a, b, n):
    r = []
    for k in range(n):
        s = 0
        for j in range(k + 1):
            if a[j] and b[k - j]:
                s += a[j] * b[k - j]
        r.append(s // SC)
    return r


def jdiv(a, b, n):
    r = []
    for k in range(n):
        s = a[k] * SC
        for j in range(1, k + 1):
            s -= b[j] * r[k - j]
        r.append(s // b[0])
    return r


class Expr:
    def __init__(self, op, *args):
        self.op = op
        self.args = args

    # construction
    @staticmethod
    def wrap(v):
        return v if isinstance(v, Expr) else Expr('c', float(v))

    def __add__(self, o): return Expr('+', self, Expr.wrap(o))
    def __radd__(self, o): return Expr('+', Expr.wrap(o), self)
    def __sub__(self, o): return Expr('-', self, Expr.wrap(o))
    def __rsub__(self, o): return Expr('-', Expr.wrap(o), self)
    def __mul__(self, o): return Expr('*', self, Expr.wrap(o))
    def __rmul__(self, o): return Expr('*', Expr.wrap(o), self)
    def __truediv__(self, o): return Expr('/', self, Expr.wrap(o))
    def __rtruediv__(self, o): return Expr('/', Expr.wrap(o), self)
    def __neg__(self): return Expr('-', Expr.wrap(0), self)
    def __pow__(self, k):
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    def rpn(self):
        if self.op == 'x': return 'x'
        if self.op == 'c': return self.args[0].hex()
        return ' '.join(a.rpn() for a in self.args) + ' ' + self.op

    def subst(self, e):
        """self(e(x))"""
        if self.op == 'x': return e
        if self.op == 'c': return self
        return Expr(self.op, *[a.subst(e) for a in self.args])

    def __call__(self, x):
        op, a = self.op, self.args
        if op == 'x': return x
        if op == 'c': return a[0]
        v = [e(x) for e in a]
        if op == '+': return v[0] + v[1]
        if op == '-': return v[0] - v[1]
        if op == '*': return v[0] * v[1]
        if op == '/': return v[0] / v[1]
        return getattr(math, op)(v[0])

    def jet(self, x, n):
        """Taylor coefficients (ints scaled by 10^DEC) at x (exact)"""
        op, a = self.op, self.args
        if op == 'x':
            return ([toint(x), SC] + [0] * n)[:n]
        if op == 'c':
            return [toint(a[0])] + [0] * (n - 1)
        j = [e.jet(x, n) for e in a]
        if op == '+': return [p + q for p, q in zip(*j)]
        if op == '-': return [p - q for p, q in zip(*j)]
        if op == '*': return jmul(j[0], j[1], n)
        if op == '/': return jdiv(j[0], j[1], n)
        f = j[0]
        f0 = mpf(f[0]) / SC
        if op == 'exp':
            r = [toint(mpmath.exp(f0))]
            for k in range(1, n):
                r.append(sum(i * f[i] * r[k - i] for i in range(1, k + 1)) // (k * SC))
            return r
        if op in ('sin', 'cos'):
            s = [toint(mpmath.sin(f0))]
            c = [toint(mpmath.cos(f0))]
            for k in range(1, n):
                s.append(sum(i * f[i] * c[k - i] for i in range(1, k + 1)) // (k * SC))
                c.append(-sum(i * f[i] * s[k - i] for i in range(1, k + 1)) // (k * SC))
            return s if op == 'sin' else c
        if op == 'sqrt':
            r = [toint(mpmath.sqrt(f0))]
            for k in range(1, n):
                t = f[k] * SC - sum(r[i] * r[k - i] for i in range(1, k))
                r.append(t // (2 * r[0]))
            return r
        raise ValueError(op)


X = Expr('x')
def C(v): return Expr('c', float(v))
def sin(e): return Expr('sin', Expr.wrap(e))
def cos(e): return Expr('cos', Expr.wrap(e))
def exp(e): return Expr('exp', Expr.wrap(e))
def sqrt(e): return Expr('sqrt', Expr.wrap(e))


class Piecewise:
    """breaks b1<b2<..., pieces e0 on (-inf,b1), e1 on [b1,b2), ..."""
    def __init__(self, pieces, breaks=()):
        self.pieces = list(pieces)
        self.breaks = [float(b) for b in breaks]

    @staticmethod
    def wrap(f):
        return f if isinstance(f, Piecewise) else Piecewise([Expr.wrap(f)])

    def piece(self, x):
        for b, p in zip(self.breaks, self.pieces):
            if x < b: return p
        return self.pieces[-1]

    def __call__(self, x): return self.piece(x)(x)

    def text(self):
        """<npieces> then per piece: <ntokens> tokens ; breaks"""
        o = [str(len(self.pieces))] + [b.hex() for b in self.breaks]
        for p in self.pieces:
            t = p.rpn().split()
            o += [str(len(t))] + t
        return ' '.join(o)
