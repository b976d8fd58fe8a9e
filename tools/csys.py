"""Coupled systems: chains, conditions and the encoding of recorded propagations for spec/CoupledTrace.tla."""
import math
import numpy as np
import mpmath
from fractions import Fraction
from expr import Piecewise, SC, C, X, cos, exp, DEC
from fix import enc, encj, frac, expo, mp2frac
from ray import NJ, snap, OutOfRange
from meshes import jump_txt
from verif import hx
from problems import *


class System:
    """n channels, V[i][j] (symmetric) as Piecewise"""

    def __init__(self, V, a, b):
        self.V = [[Piecewise.wrap(f) for f in row] for row in V]
        self.n = len(V)
        self.a, self.b = a, b
        self.jumps = sorted({float(x) for row in self.V for f in row for x in f.breaks if a < x < b})

    def lines(self):
        out, names = [], []
        for j in range(self.n):
            for i in range(j + 1):
                names.append('f%d' % len(names))
                out.append('fn %s %s' % (names[-1], self.V[i][j].text()))
        self.names = names
        return out

    def cs(self, o, tol, builder=None):
        bt = builder or (jump_txt(self.jumps) if self.jumps else 'auto')
        return 'cs %s %d %s %s %s %s %s' % (o, self.n, ' '.join(self.names), hx(self.a), hx(self.b), hx(tol), bt)

    def at(self, x):
        return np.array([[f(x) for f in row] for row in self.V])

    def describe(self):
        return dict(n=self.n, domain=[self.a, self.b], V=[[f.text()[:120] for f in row[:i + 1]] for i, row in enumerate(self.V)])


def random_system(rng, n, diagonal=False, jumps=None):
    u = rng.uniform
    L = rng.choice([.5, 1, 2, 3.5, 8])
    a = float(rng.choice([0, -L / 2, -L, 1]))
    b = a + L
    t = (X - (a + b) / 2) * float('%.6g' % (2 / L))
    s = 1 / L ** 2

    def piece(scale):
        k = rng.choice(['c', 'l', 'q', 'cos', 'exp', '0'] if scale < 1 else ['c', 'l', 'q', 'cos', 'exp'])
        c = lambda m: float('%.3g' % (u(-m, m) * s * scale))
        if k == '0': return C(0)
        if k == 'c': return C(c(20))
        if k == 'l': return c(20) + c(20) * t
        if k == 'q': return c(10) + c(20) * t * t + c(5) * t
        if k == 'cos': return c(20) * cos(r3(u(1, 6)) * t + r3(u(0, 6)))
        return c(8) * exp(r3(u(-2, 2)) * t)
    cuts = []
    if jumps if jumps is not None else rng.random() < .25:
        cuts = sorted(float('%.4g' % (a + u(.1, .9) * L)) for _ in range(rng.choice([1, 2])))

    def entry(scale):
        if not cuts or rng.random() < .3: return piece(scale)
        return Piecewise([piece(scale) for _ in range(len(cuts) + 1)], cuts)
    w = rng.choice([.1, .5, 1.])
    V = [[None] * n for _ in range(n)]
    same = entry(1.5) if rng.random() < .15 else None
    for j in range(n):
        for i in range(j + 1):
            V[i][j] = V[j][i] = (same if i == j and same is not None else entry(1.5)) if i == j else C(0) if diagonal else entry(w)
    return System(V, a, b)


class CChain:
    F = 4

    def __init__(self, sys, pts, E, hk=1.5, ommax=30.):
        n = sys.n
        pts = [snap(x) for x in pts]
        forward = pts[-1] >= pts[0]
        dirn = 1 if forward else -1
        lo, hi = min(pts[0], pts[-1]), max(pts[0], pts[-1])
        brk = {frac(b) for b in sys.jumps if lo < frac(b) < hi}
        allp = sorted(set(pts) | brk, reverse=not forward)
        def rad(x): return float(np.abs(sys.at(x) - E * np.eye(n)).sum(axis=1).max())
        M = max([1.] + [rad(float(lo) + float(hi - lo) * (i + .5) / 65) for i in range(65)])
        om = float('%.3g' % math.sqrt(M))
        self.om = Fraction(om)
        self.steps, self.xs, self.idx = [], [allp[0]], {allp[0]: 0}
        cut = 10 ** (DEC - 4 * self.F - 1)
        for A, B in zip(allp, allp[1:]):
            mid = float((A + B) / 2)
            ex = [[sys.V[i][j].piece(mid) for j in range(n)] for i in range(n)]
            x = A
            while x != B:
                if len(self.steps) > 6000: raise OutOfRange('too many steps')
                rem = abs(B - x)
                h = float(rem)
                for _ in range(60):
                    m = max(float(np.abs(np.array([[ex[i][j](float(x) + dirn * h * k / 8) for j in range(n)] for i in range(n)]) - E * np.eye(n)).sum(axis=1).max()) for k in range(9))
                    if h * math.sqrt(max(m, 1e-9)) <= hk and h * om <= ommax: break
                    h = min(h * .9, hk / math.sqrt(max(m, 1e-9)) * .999, ommax / om)
                J = [[ex[i][j].jet(x, NJ) for j in range(n)] for i in range(n)]
                while not self.converges(J, h, om, E): h *= .8
                k = max(1, math.ceil(float(rem) / h - 1e-9))
                H = rem if k == 1 else frac(float('%.6g' % min(h, float(rem) / k)))
                if H >= rem: H = rem
                Hd = H * dirn
                def coeffs(c0, f):
                    r = []
                    for k, c in enumerate(c0):
                        t = frac(c) * f * Hd ** k
                        r.append((2 * t.numerator + t.denominator) // (2 * t.denominator))
                    while len(r) > 1 and abs(r[-1]) < cut: r.pop()
                    return [encj(c, self.F) for c in r]
                self.steps.append(dict(a=enc(Hd * self.om), w=enc(Hd * self.om), q=[[coeffs(J[i][j], Hd / self.om) for j in range(n)] for i in range(n)]))
                x = x + Hd
                self.xs.append(x)
            self.idx[B] = len(self.steps)

    def converges(self, J, h, om, E):
        n = len(J)
        f = 1. / float(SC)
        q = []
        for k in range(NJ):
            rows = [sum(abs((J[i][j][k] * f if k < len(J[i][j]) else 0.) - (E if i == j and k == 0 else 0)) for j in range(n)) for i in range(n)]
            q.append(max(rows) * h ** (k + 1) / om)
        while len(q) > 1 and q[-1] == 0: q.pop()
        u, v = [1.], [1.]
        for k in range(25):
            u.append(h * om * v[k] / (k + 1))
            v.append(sum(q[j] * u[k - j] for j in range(min(k + 1, len(q)))) / (k + 1))
        return sum(u[23:26]) + sum(v[23:26]) < 3e-15

    def g(self, E):
        return enc(frac(E) / self.om ** 2)


def transfer(sys, om, E, x0, x1):
    """transfer matrix in (u, v) over a short piece with the potential of its middle"""
    n = sys.n
    Q = sys.at((x0 + x1) / 2) - E * np.eye(n)
    lam, U = np.linalg.eigh(Q)
    h = x1 - x0
    c, e = [], []
    for l in lam:
        z = l * h * h
        if z > 1e-12:
            s = math.sqrt(min(z, 4e4)); c.append(math.cosh(s)); e.append(math.sinh(s) / s)
        elif z < -1e-12:
            s = math.sqrt(-z); c.append(math.cos(s)); e.append(math.sin(s) / s)
        else: c.append(1.); e.append(1.)
    c, e = np.array(c), np.array(e)
    return np.block([[U @ np.diag(c) @ U.T, U @ np.diag(e * h * om) @ U.T], [U @ np.diag(lam * h * e / om) @ U.T, U @ np.diag(c) @ U.T]])


def condition(sys, ch, E):
    """max over the points of |M(x->b)| |M(a->x)|; the map from a to b"""
    om = float(ch.om)
    Ms = [transfer(sys, om, E, float(x), float(y)) for x, y in zip(ch.xs, ch.xs[1:])]
    I = np.eye(2 * sys.n)
    left, right = [I], [I]
    for M in Ms: left.append(M @ left[-1])
    for M in reversed(Ms): right.append(right[-1] @ M)
    right.reverse()
    nrm = lambda A: float(np.abs(A).sum(axis=1).max())
    return max(1., max(nrm(l) * nrm(r) for l, r in zip(left, right))), left[-1]


def detour(sys, E, sectors, pts):
    amp = 1.
    for x in set(float(p) for p in pts):
        best = 1.
        for s in sectors:
            a, b = float(s[0]), float(s[1])
            if a < x < b:
                w = sum(math.sqrt(max(0., np.linalg.eigvalsh(sys.at(a + (b - a) * (i + .5) / 16))[-1] - E)) for i in range(16)) * (b - a) / 16
                best = max(best, math.exp(min(2 * w, 300)))
        amp *= best
    return amp


def column(ch, y, n):
    """recorded or requested column (y, y', yE, y'E; 4n numbers) -> scaled parts"""
    om = ch.om
    y = [frac(t) for t in y]
    return [y[:n], [t / om for t in y[n:2 * n]], [t * om * om for t in y[2 * n:3 * n]], [t * om for t in y[3 * n:]]]


def start(ch, y0, n):
    """encoded start columns and their scales"""
    cols, sc = [], []
    for y in y0:
        p = column(ch, y, n)
        e = max([expo(t) for t in p[0] + p[1] if t != 0] or [0])
        f = Fraction(10) ** (-e)
        cols.append(dict(zip(('u', 'v', 'ue', 've'), [[enc(t * f) for t in q] for q in p])))
        sc.append(f)
    return cols, sc


def cols_case(chk, sys, ch, E, y0, Y, tol, K, amp=1., KE=None):
    n = sys.n
    kap, _ = condition(sys, ch, float(E))
    kap *= amp
    if kap > 1e25: return None
    L = abs(float(ch.xs[-1] - ch.xs[0])) * float(ch.om)
    cols, sc = start(ch, y0, n)
    o = []
    for y, f, Yc in zip(y0, sc, Y):
        p0 = [[t * f for t in q] for q in column(ch, y, n)]
        p = [[t * f for t in q] for q in column(ch, Yc, n)]
        err = (K * tol + 1e-12) * kap
        ex = max([expo(t) for t in p[0] + p[1] if t != 0] + [expo(frac(err)) - 6])
        dE0 = float(max(abs(t) for t in p0[2] + p0[3]))
        errE = ((KE or K) * tol + 1e-12) * kap * (L + 1 + dE0)
        exe = max([expo(t) for t in p[2] + p[3] if t != 0] + [expo(frac(errE)) - 6])
        s, se = Fraction(10) ** (-ex), Fraction(10) ** (-exe)
        o.append(dict(u=[enc(t * s) for t in p[0]], v=[enc(t * s) for t in p[1]], ex=ex, eps=enc(frac(err) * s),
                      ue=[enc(t * se) for t in p[2]], ve=[enc(t * se) for t in p[3]], exe=exe, epse=enc(frac(errE) * se)))
    return ('CoupledTrace', dict(j='cols', p=chk.chain(ch).pid, i0=0, i1=len(ch.steps), g=ch.g(E), d=True, cols=cols, turn=[], o=dict(y=o)))


def ratio_case(chk, sys, ch, E, P0, P, tol, K, amp=1.):
    """P0, P: matrices (rows) of the ratio Y (Y')^-1"""
    n = sys.n
    kap, M = condition(sys, ch, float(E))
    kap *= amp
    om = ch.om
    # start: v = I, u = P0 om
    y0 = [[frac(P0[i][j]) for i in range(n)] + [Fraction(int(i == j)) for i in range(n)] + [Fraction(0)] * (2 * n) for j in range(n)]
    cols, sc = start(ch, y0, n)
    S = np.vstack([np.array([[float(t) for t in r] for r in P0]), np.eye(n) / float(om)])
    R = M @ S
    # conditioning of the result: distance of the derivative block to singular matrices
    sv = np.linalg.svd(R[n:], compute_uv=False)
    grow = max(1., np.abs(R).max() / max(sv[-1], 1e-300))
    scale = max(1., np.abs(S).max() / np.linalg.svd(S[n:], compute_uv=False)[-1])
    if kap > 1e6 or grow > 1e5: return None
    Pm = [[frac(P[i][j]) * om for j in range(n)] for i in range(n)]
    ex = max([expo(t) for r in Pm for t in r if t != 0] + [0])
    s = Fraction(10) ** (-ex)
    eps = (K * tol + 1e-12) * kap * grow * scale * max(1., float(max(abs(t) for r in Pm for t in r)))
    return ('CoupledTrace', dict(j='ratio', p=chk.chain(ch).pid, i0=0, i1=len(ch.steps), g=ch.g(E), d=False, cols=cols, turn=[],
            o=dict(P=[[enc(t * s) for t in r] for r in Pm], ex=ex, eps=[enc(frac(max(eps, 1e-13)) * s)] * n)))


def angle_case(chk, sys, ch, E, y0, th, tol, K, amp=1.):
    """ch must have been made with hk <= 1/n"""
    n = sys.n
    om = ch.om
    kap, M = condition(sys, ch, float(E))
    kap *= amp
    cols, sc = start(ch, y0, n)
    u = mpmath.matrix(n, n)
    for j, y in enumerate(y0):
        for i in range(n):
            u[i, j] = mpmath.mpc(float(y[n + i]), float(y[i]))
    D0 = mpmath.det(u)
    w0 = np.array([[float(y[i]) for y in y0] for i in range(n)])
    v0 = np.array([[float(y[n + i]) / float(om) for y in y0] for i in range(n)])
    R = M @ np.vstack([w0, v0])
    # conditioning of det(v + i s u) for s from 1/om to 1 at the end
    worst = 1.
    for s in (1., 1 / math.sqrt(float(om)), 1 / float(om)):
        for A in (np.vstack([w0, v0]), R):
            Z = A[n:] + 1j * s * A[:n]
            Z = Z / np.maximum(np.abs(Z).max(axis=0), 1e-300)
            worst = max(worst, np.linalg.cond(Z) * max(1., np.abs(A).max() / max(np.abs(A[n:] + 1j * s * A[:n]).max(), 1e-300)))
    eps = (K * tol + 1e-12) * kap * worst
    if eps > .03 or worst > 1e5 or kap > 1e8: return None
    arg0 = mpmath.arg(D0)
    if arg0 < 0: arg0 += 2 * mpmath.pi
    t = frac(th)
    phi = arg0 + mpmath.mpf(t.numerator) / mpmath.mpf(t.denominator) / 2
    turn = []
    s = 1 / float(om)
    while s < 1:
        turn.append(s)
        s *= 1.4
    turn.append(1.)
    hp = mpmath.pi / 2
    q0 = int(mpmath.floor(arg0 / hp))
    return ('CoupledTrace', dict(j='angle', p=chk.chain(ch).pid, i0=0, i1=len(ch.steps), g=ch.g(E), d=False, cols=cols, turn=[enc(x) for x in turn],
            o=dict(q0=q0, qt=int(mpmath.floor(phi / hp)), cs=[enc(mp2frac(mpmath.cos(phi))), enc(mp2frac(mpmath.sin(phi)))], eps=enc(max(eps, 1e-6)))))


def positions(rng, S, o='o'):
    return rng.choice([hx(S.a), hx(S.b), '@m:%s:%d' % (o, rng.randrange(30)), '@M:' + o,
                       '@c:%s:%d:%s' % (o, rng.randrange(30), rng.choice(['0.5', '0.25', '1e-9', '0.999999'])), hx(S.a + rng.random() * (S.b - S.a))])


def energy(rng, S, lo=-20, hi=2000):
    L = S.b - S.a
    return r3((rng.uniform(lo, 100) if rng.random() < .8 else rng.uniform(100, hi)) / L ** 2)


def ytxt(y):
    return ' '.join(hx(t) for c in y for t in c)


def general(rng, n, dE=True):
    """columns y, y', yE, y'E"""
    if rng.random() < .3: return [[0.] * n + [float(i == j) for i in range(n)] + [0.] * (2 * n) for j in range(n)]
    u = lambda m: r3(rng.uniform(-m, m))
    z = dE and rng.random() < .4
    return [[u(1) for _ in range(n)] + [u(3) for _ in range(n)] + ([u(.1) for _ in range(2 * n)] if z else [0.] * (2 * n)) for _ in range(n)]


def lagrangian(rng, n, diagonal=False):
    """columns with a symmetric ratio (the only ones that have an angle)"""
    u = lambda m: r3(rng.uniform(-m, m))
    if diagonal:
        return [[u(1) * (i == j) for i in range(n)] + [u(3) * (i == j) for i in range(n)] + [0.] * (2 * n) for j in range(n)]
    A = [[u(2) for _ in range(n)] for _ in range(n)]
    Sy = [[r3(A[i][j] + A[j][i]) for j in range(n)] for i in range(n)]
    I = [[float(i == j) for j in range(n)] for i in range(n)]
    Z = [[0.] * n for _ in range(n)]
    U, W = rng.choice([(Sy, I), (I, Sy), (Z, I), (I, Z)])
    return [[U[i][j] for i in range(n)] + [W[i][j] for i in range(n)] + [0.] * (2 * n) for j in range(n)]


class Legs:
    """error bounds of propagations between points of one object at one energy"""

    def __init__(self, S, E, sectors, K, tol):
        self.S, self.E, self.sec, self.K, self.tol = S, E, sectors, K, tol
        self.memo = {}
        M = max([1.] + [float(np.abs(S.at(S.a + (S.b - S.a) * (i + .5) / 65) - E * np.eye(S.n)).sum(axis=1).max()) for i in range(65)])
        self.om = math.sqrt(M)
        self.mesh = {float(s[0]) for s in sectors} | {float(s[1]) for s in sectors}

    def leg(self, a, b):
        """norm, condition, length in units 1 / om"""
        k = (float(a), float(b))
        if k not in self.memo:
            om, n = self.om, self.S.n
            L = k[1] - k[0]
            N = max(8, math.ceil(abs(L) * om / .5))
            cuts = [j for j in self.S.jumps if min(k) < j < max(k)]
            xs = sorted({k[0] + L * i / N for i in range(N + 1)} | set(cuts) | set(k), reverse=L < 0)
            Ms = [transfer(self.S, om, self.E, x, y) for x, y in zip(xs, xs[1:])]
            I = np.eye(2 * n)
            left, right = [I], [I]
            for M in Ms: left.append(M @ left[-1])
            for M in reversed(Ms): right.append(right[-1] @ M)
            right.reverse()
            nrm = lambda A: float(np.abs(A).sum(axis=1).max())
            kap = max(1., max(nrm(l) * nrm(r) for l, r in zip(left, right))) * detour(self.S, self.E, self.sec, k)
            self.memo[k] = nrm(left[-1]), kap, abs(L) * om
        return self.memo[k]

    def scaled(self, y):
        om, n = self.om, self.S.n
        f = [1.] * n + [1 / om] * n + [om ** 2] * n + [om] * n
        return [frac(t) * frac(s) for t, s in zip(y, f)]

    def size(self, y):
        s = [abs(float(t)) for t in self.scaled(y)]
        n = self.S.n
        return max(s[:2 * n]), max(s[2 * n:])

    def bound(self, states, xs):
        """errors (value, dE) after the walk xs with the recorded states of one column"""
        K, tol = self.K, self.tol
        e = eE = 0.
        for k in range(len(xs) - 1):
            v, vE = self.size(states[k])
            m, kap, L = self.leg(xs[k], xs[k + 1])
            if xs[k] == xs[k + 1]:
                s = (1e-15 if float(xs[k]) in self.mesh else K * tol + 1e-12) * kap
                d, dE = s * v, s * (vE + v * (1 + self.om * (self.S.b - self.S.a)))
            else:
                d = (K * tol + 1e-12) * kap * (v + e)
                dE = (K * tol + 1e-12) * kap * (vE + eE + (L + 1) * (v + e))
            eE = m * eE + kap * (L + 1) * e + dE
            e = m * e + d
        return e, eE
