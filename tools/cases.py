"""Encodes recorded observations as cases of spec/RayTrace.tla."""
from fractions import Fraction
from fix import enc, scaled, expo, frac
from verif import Bad, conv


def direction(ch, y, dy):
    """boundary direction (y, y') -> (u, v) limbs with max magnitude < 1 (a positive factor does not matter)"""
    (u, v), _ = scaled([frac(y), ch.v(dy)], ch.F)
    return u, v


def run(ch, i0, i1, bc, E, d=False):
    u, v = direction(ch, *bc)
    return dict(p=ch.pid, i0=i0, i1=i1, u=u, v=v, d=d, g=ch.g(E))


def count_runs(ch, bc, Es, d=False):
    return [run(ch, 0, len(ch.steps), bc, E, d) for E in Es]


def eig_case(ch, l, r, n, E, delta):
    ru, rv = direction(ch, *r)
    return dict(j='eig', runs=count_runs(ch, l, [frac(E) - frac(delta), frac(E) + frac(delta)]), o=dict(n=n, ru=ru, rv=rv))


def window_case(ch, l, r, Emin, Emax, dmin, dmax, first, m):
    """dmin, dmax: end point slack"""
    ru, rv = direction(ch, *r)
    Emin, Emax, dmin, dmax = map(frac, (Emin, Emax, dmin, dmax))
    return dict(j='window', runs=count_runs(ch, l, [Emin - dmin, Emin + dmin, Emax - dmax, Emax + dmax]),
                o=dict(m=m, first=first, ru=ru, rv=rv))


def need(ev, kind=None):
    """the recorded event must be a normal result"""
    if 'exc' in ev: raise Bad('exception ' + ev['exc'])
    if 'bad' in ev: raise Bad(ev['bad'])
    if kind and ev['ev'] != kind: raise Bad('event ' + ev['ev'])
    return ev


def delta(tol, E, ch, k=None):
    """allowed distance of a reported eigenvalue from the exact one: the largest distance observed over thousands of
    random problems is about 30 tol (tiny tolerances) resp. 8 tol; floors: rounding of double precision and of the specification"""
    import os
    k = float(os.environ.get("DK", k or (100 if tol < 1e-7 else 30)))
    return max(k * tol, 1e-11 * (1 + abs(float(E))), 1e-12 * float(ch.om) ** 2)


def pair_slack(Es, om):
    """nearly coinciding eigenvalues: the matching function has a double root, its zeros are determined up to the square
    root of the rounding errors"""
    Es = sorted(float(E) for E in Es)
    return 2e-9 * float(om) ** 2 if any(b - a < 1e-5 * (1 + abs(a)) for a, b in zip(Es, Es[1:])) else 0.


def condition(ch, V, E, i0=0, i1=None):
    """bound of sum over x of |M(x->b)| |M(a->x)| in the scaled variables (u, v = u'/om), from the problem definition
    (piecewise constant approximation on the chain); returns (kappa, length * om)"""
    import math
    i1 = len(ch.steps) if i1 is None else i1
    om = float(ch.om)
    Ms = []
    for k in range(i0, i1):
        x0, x1 = float(ch.xs[k]), float(ch.xs[k + 1])
        h = x1 - x0
        Q = V((x0 + x1) / 2) - E
        z = Q * h * h
        if z > 1e-12:
            s = math.sqrt(z); c, e = math.cosh(s), math.sinh(s) / s
        elif z < -1e-12:
            s = math.sqrt(-z); c, e = math.cos(s), math.sin(s) / s
        else:
            c, e = 1., 1.
        Ms.append((c, e * h * om, Q * h * e / om, c))

    def mul(A, B): return (A[0] * B[0] + A[1] * B[2], A[0] * B[1] + A[1] * B[3], A[2] * B[0] + A[3] * B[2], A[2] * B[1] + A[3] * B[3])
    def nrm(A): return max(abs(t) for t in A)
    I = (1., 0., 0., 1.)
    left = [I]
    for M in Ms: left.append(mul(M, left[-1]))
    right = [I]
    for M in reversed(Ms): right.append(mul(right[-1], M))
    right.reverse()
    kappa = max(nrm(l) * nrm(r) for l, r in zip(left, right))
    return max(kappa, 1.), abs(float(ch.xs[i1]) - float(ch.xs[i0])) * om


def prop_case(ch, V, E, y0, Y, th, tol, i0=0, i1=None, K=30., angle=True, value=True, KE=None, amp=1.):
    """recorded propagation: y0 = (y, y', y_E, y'_E) at chain point i0, Y the recorded result at i1"""
    i1 = len(ch.steps) if i1 is None else i1
    om = ch.om
    kap, L = condition(ch, V, float(E), i0, i1)
    kap *= amp
    if kap > 1e30: return None
    st = [frac(y0[0]), ch.v(y0[1])]
    e0 = max([expo(t) for t in st if t != 0] or [0])
    sc = Fraction(10) ** (-e0)
    rel = [enc(t * sc) for t in st]
    dE = [frac(y0[2]) * om * om * sc, ch.v(y0[3]) * om * om * sc]
    r = dict(p=ch.pid, i0=i0, i1=i1, u=rel[0], v=rel[1], d=True, g=ch.g(E), ue=enc(dE[0]), ve=enc(dE[1]))
    obs = [frac(Y[0]) * sc, ch.v(Y[1]) * sc]
    obsE = [frac(Y[2]) * om * om * sc, ch.v(Y[3]) * om * om * sc]
    big = Fraction(10) ** 7
    ex = max([expo(t) for t in obs if t != 0] or [0])
    errA = (K * tol + 1e-12) * kap
    # keep the tolerance representable in the unit of the observation
    ex = max(ex, expo(frac(errA)) - 6)
    o = dict(y=[enc(t / Fraction(10) ** ex) for t in obs], ex=ex, eps=enc(frac(errA) / Fraction(10) ** ex))
    errE = ((KE or K) * tol + 1e-12) * kap * ((L + 1) + float(max(abs(t) for t in dE)))
    exe = max([expo(t) for t in obsE if t != 0] or [0])
    exe = max(exe, expo(frac(errE)) - 6)
    if value:
        o['ye'] = [enc(t / Fraction(10) ** exe) for t in obsE]
        o['exe'] = exe
        o['epse'] = enc(frac(errE) / Fraction(10) ** exe)
    else:
        o['eps'] = enc(9 * 10 ** 7)
    tiny = max(1e-6, errA / float(Fraction(10) ** min(ex, 300)) * 10)
    if th is not None and angle and tiny < .05:
        o['th'] = enc(over_pi(th))
        o['dir'] = 1 if i1 == i0 or ch.xs[i1] >= ch.xs[i0] else -1
        o['tiny'] = enc(frac(tiny))
    return dict(j='prop', runs=[r], o=o)


def over_pi(th):
    import mpmath
    from fix import mp2frac
    t = frac(th)
    return mp2frac(mpmath.mpf(t.numerator) / mpmath.mpf(t.denominator) / mpmath.pi)


def detour(V, E, sectors, pts):
    """The solver reaches a point inside a sector through the sector's far end: amplification of errors by that
    detour where the solutions are exponential.  sectors: recorded [[min, max, h, dir]..] (exact numbers)"""
    import math
    amp = 1.
    for x in set(pts):
        best = 1.
        for s in sectors:
            a, b = float(s[0]), float(s[1])
            if a < x < b:
                w = sum(math.sqrt(max(0., V(a + (b - a) * (i + .5) / 32) - E)) for i in range(32)) * (b - a) / 32
                best = max(best, math.exp(min(2 * w, 300)))
        amp *= best
    return amp


class Amp:
    """amplification of errors by propagation (piecewise constant approximation, from the problem definition), in the
    scaled variables (u, v = u'/om); leg(x, y) = (norm of the transfer matrix, kappa, om * length)"""

    def __init__(self, V, E, lo, hi, sectors, N=160):
        self.V, self.E, self.lo, self.hi, self.N, self.sectors = V, float(E), float(lo), float(hi), N, sectors
        self.om = max(1., max(abs(self.E - V(self.lo + (self.hi - self.lo) * (i + .5) / 64)) for i in range(64)) ** .5)
        self.cache = {}

    def leg(self, x, y):
        k = (x, y)
        if k not in self.cache: self.cache[k] = self.compute(float(x), float(y))
        return self.cache[k]

    def compute(self, x, y):
        import math
        om = self.om
        n = max(4, int(self.N * abs(y - x) / (self.hi - self.lo)))
        h = (y - x) / n
        Ms = []
        for k in range(n):
            Q = self.V(x + (k + .5) * h) - self.E
            z = Q * h * h
            if z > 1e-12:
                s = math.sqrt(min(z, 1e5)); c, e = math.cosh(s), math.sinh(s) / s
            elif z < -1e-12:
                s = math.sqrt(-z); c, e = math.cos(s), math.sin(s) / s
            else: c, e = 1., 1.
            Ms.append((c, e * h * om, Q * h * e / om, c))
        def mul(A, B): return (A[0] * B[0] + A[1] * B[2], A[0] * B[1] + A[1] * B[3], A[2] * B[0] + A[3] * B[2], A[2] * B[1] + A[3] * B[3])
        def nrm(A): return max(abs(t) for t in A)
        left, right = [(1., 0., 0., 1.)], [(1., 0., 0., 1.)]
        for M in Ms: left.append(mul(M, left[-1]))
        for M in reversed(Ms): right.append(mul(right[-1], M))
        right.reverse()
        kap = max([1.] + [nrm(l) * nrm(r) for l, r in zip(left, right)])
        return max(1., 2 * nrm(left[-1])), kap * detour(self.V, self.E, self.sectors, [x, y]), abs(y - x) * om


def near(name, a, b, eps):
    """a, b, eps: numbers; scaled so that the comparison is representable"""
    a, b, eps = frac(a), frac(b), frac(eps)
    if eps <= 0: eps = Fraction(1, 10 ** 300)
    ex = max(expo(max(abs(a), abs(b))) if max(abs(a), abs(b)) else -10 ** 6, expo(eps))
    s = Fraction(10) ** (-ex)
    return dict(n=name, a=enc(a * s), b=enc(b * s), e=enc(max(eps * s, Fraction(2, 10 ** 16))))


def windows_case(queries, base, ref, eps, slack):
    """queries: [(lo, hi, [(ix, E)..])]"""
    allE = [abs(frac(E)) for _, _, v in queries for _, E in v] + [abs(frac(E)) for E in ref]
    s = Fraction(10) ** (-max([expo(t) for t in allE if t != 0] + [expo(frac(eps))]))
    e = lambda t: enc(max(frac(t) * s, Fraction(2, 10 ** 16)))
    return dict(j='windows', runs=[], o=dict(base=base, ref=[enc(frac(t) * s) for t in ref], eps=e(eps), slack=e(slack),
                q=[dict(lo=lo, hi=hi, ix=[i for i, _ in v], e=[enc(frac(E) * s) for _, E in v]) for lo, hi, v in queries]))


def sample_points(V, a, b, E, rng, p=None, w=None, limit=70, extra=3):
    """increasing points of [a, b] with at most one zero of a solution between neighbours; None: too many"""
    from ray import Chain
    ch = Chain(V, [a, b], E, p=p, w=w)
    if len(ch.xs) > limit: return None
    pts = {float(x) for x in ch.xs[1:-1]} | {float(a), float(b)}
    for _ in range(extra): pts.add(a + rng.random() * (b - a))
    return sorted(x for x in pts if a <= x <= b)


def eigf_case(V, pts, ys, E, n, l, r, tol, K=30., KN=30., p=None, w=None, maxbad=1, sectors=(), norm=1, dE=None, chk=None, rn=None, kjump=None, F=4, rnd=(1e-12, 1e-15, 1e-10, 1e-6)):
    """recorded eigenfunction: ys[i] = (y, y') at pts[i] (exact numbers); l, r: boundary directions (y, p y') or None;
    rn: right boundary value relative to the left end (periodic) is checked elsewhere"""
    import math
    from ray import Chain
    ch = chk.chain(Chain(V, pts, float(E), p=p, w=w, F=F))
    om = float(ch.om)
    pv = (lambda x: p(x)) if p is not None else (lambda x: 1.)
    st = [(y[0], ch.v(y[1] * frac(pv(float(x))))) for x, y in zip(pts, ys)]
    dE = dE if dE is not None else (kjump or 30) * tol
    runs, ex, bs, eps, jump = [], [], [], [], []
    mag = [max(abs(float(t)) for t in s) for s in st]
    if not all(mag): raise Bad('eigenfunction vanishes')
    for i in range(len(pts) - 1):
        e = expo(max(abs(t) for t in st[i]))
        e = max(e, expo(max(abs(t) for t in st[i + 1])) - 6)
        sc = Fraction(10) ** (-e)
        i0, i1 = ch.at(pts[i]), ch.at(pts[i + 1])
        u, v = (enc(t * sc, F) for t in st[i])
        runs.append(dict(p=ch.pid, i0=i0, i1=i1, u=u, v=v, d=True, g=ch.g(E), ue=enc(0, F), ve=enc(0, F)))
        ex.append(e)
        bs.append([enc(t * sc, F) for t in st[i + 1]])
        kap, L = condition(ch, V if p is None else (lambda x: 0), float(E), i0, i1) if p is None else (math.exp(3.), 1.)
        local = max(mag[i], mag[i + 1]) * kap
        amp = 1.
        for s in sectors:
            a_, b_ = float(s[0]), float(s[1])
            if a_ <= pts[i + 1] and pts[i] <= b_:
                amp = max(amp, math.exp(min(600, 2 * sum(math.sqrt(max(0., V(a_ + (b_ - a_) * (k + .5) / 32) - float(E))) for k in range(32)) * (b_ - a_) / 32)))
        t = (K * tol + rnd[0] + rnd[1] * amp) * local
        # a jump at the matching point: Wronskian of both parts = error of E (unit norm)
        j = t + 4 * kap * dE * max(1., 1 / om) / min(mag[i], mag[i + 1]) / om * om
        eps.append(enc(min(frac(t) * sc, Fraction(8 * 10 ** 7)), F))
        jump.append(enc(min(frac(j) * sc, Fraction(8 * 10 ** 7)), F))
    sg = [(0 if y[0] == 0 else 1 if y[0] > 0 else -1) for y in ys]
    if l is not None and l[0] == 0: sg[0] = 0
    if r is not None and r[0] == 0: sg[-1] = 0

    def bc(d, s, m):
        if d is None: return [enc(0, F), enc(0, F)], [enc(0, F), enc(0, F)], enc(1, F)
        q = scaled([frac(d[0]), ch.v(d[1])], F)[0]
        sc = Fraction(10) ** (-expo(max(abs(t) for t in s)))
        return q, [enc(t * sc, F) for t in s], enc(frac(min(1000, rnd[2] + (4 * dE / m) / m)), F)
    lq, first, le = bc(l, st[0], mag[0])
    rq, last, re_ = bc(r, st[-1], mag[-1])
    wn = frac(norm) * ch.om
    return dict(j='eigf', runs=runs, o=dict(ex=ex, b=bs, eps=eps, jump=jump, maxbad=maxbad, l=lq, r=rq, first=first, last=last, lbceps=le, rbceps=re_,
                n=n, sg=sg, hasnorm=norm is not None, norm=enc(wn, F), normeps=enc(wn * frac(KN * tol + rnd[3]), F)))


def resolved(V, a, b, l, r, n, dE, N=900):
    """Can double precision shooting resolve state n?  (finite differences on the problem definition, only used to select
    problems.)  Energies of accuracy dE determine an eigenfunction only if the state is separated from its neighbours, and
    if it is not exponentially small where the potential is low (the solver matches there)."""
    import numpy as np
    from scipy.linalg import eigh_tridiagonal
    h = (b - a) / N
    x = [a + i * h for i in range(N + 1)]
    v = np.array([V(min(max(t, a + 1e-9), b - 1e-9)) for t in x])
    m = np.full(N + 1, h); m[0] = m[-1] = h / 2
    K = np.full(N + 1, 2 / h) + v * m
    K[0] = 1 / h + v[0] * h / 2; K[-1] = 1 / h + v[-1] * h / 2
    off = np.full(N, -1 / h)
    i0, i1 = 0, N + 1
    if l[0] == 0: i0 = 1
    else: K[0] += l[1] / l[0]
    if r[0] == 0: i1 = N
    else: K[-1] -= r[1] / r[0]
    d = (K / m)[i0:i1]
    o = (off / np.sqrt(m[:-1] * m[1:]))[i0:i1 - 1]
    e, z = eigh_tridiagonal(d, o, select='i', select_range=(max(0, n - 1), n + 1))
    k = 1 if n > 0 else 0
    if min(abs(e[j] - e[k]) for j in range(len(e)) if j != k) < 1e4 * dE: return False
    y = np.zeros(N + 1); y[i0:i1] = z[:, k] / np.sqrt(m[i0:i1])
    dy = np.gradient(y, h)
    E = e[k]
    om2 = max(1., float(np.max(np.abs(v - E))))
    mag = y * y + dy * dy / om2
    lo = v <= v.min() + .2 * max(abs(E - v.min()), v.max() - v.min(), 1e-9)
    return bool(np.min(mag[lo]) > 1e4 * dE)


def resolved_sl(P, l, r, n, dE, N=600):
    """the same for -(p z')' + q z = E w z (conditions in z, z'); the state has to be visible everywhere"""
    import numpy as np
    from scipy.linalg import eigh_tridiagonal
    a, b = P.a, P.b
    h = (b - a) / N
    f = lambda g, x: float(g(min(max(x, a + 1e-12), b - 1e-12)))
    p = np.array([f(P.p, a + (i + .5) * h) for i in range(N)])
    w = np.array([f(P.w, a + i * h) for i in range(N + 1)])
    q = np.array([f(P.q, a + i * h) for i in range(N + 1)])
    m = w * h; m[0] /= 2; m[-1] /= 2
    K = np.zeros(N + 1)
    K[:-1] += p / h; K[1:] += p / h
    K += q * (m / w)
    off = -p / h
    i0, i1 = 0, N + 1
    if l[0] == 0: i0 = 1
    else: K[0] += f(P.p, a) * l[1] / l[0]
    if r[0] == 0: i1 = N
    else: K[-1] -= f(P.p, b) * r[1] / r[0]
    d = (K / m)[i0:i1]
    o = (off / np.sqrt(m[:-1] * m[1:]))[i0:i1 - 1]
    e, z = eigh_tridiagonal(d, o, select='i', select_range=(max(0, n - 1), n + 1))
    k = 1 if n > 0 else 0
    if min(abs(e[j] - e[k]) for j in range(len(e)) if j != k) < 1e4 * dE * max(1, abs(e[k])): return False
    y = np.zeros(N + 1); y[i0:i1] = z[:, k] / np.sqrt(m[i0:i1])
    pp = np.interp(np.arange(N + 1), np.arange(N) + .5, p)
    dy = np.gradient(y, h) * pp
    om2 = max(1., float(np.max(np.abs(q - e[k] * w) * pp)))
    mag = y * y + dy * dy / om2
    return bool(np.min(mag) > 1e4 * dE * np.max(mag))


def scaled_K(ch, K):
    om = ch.om
    k = [frac(t) for t in K]
    return [enc(k[0]), enc(k[1] * om), enc(k[2] / om), enc(k[3])]


def coupled_case(ch, K, rows):
    """rows: [(name, E, lo, hi)]: number of eigenvalues below E between lo and hi"""
    runs = []
    n = len(ch.steps)
    for _, E, _, _ in rows:
        for u, v in ((1, 0), (0, 1)):
            runs.append(dict(p=ch.pid, i0=0, i1=n, u=enc(u), v=enc(v), d=False, g=ch.g(frac(E))))
    return dict(j='coupled', runs=runs, o=dict(K=scaled_K(ch, K), nm=[r[0] for r in rows], lo=[r[2] for r in rows], hi=[r[3] for r in rows]))


def image_case(ch, K, fs, n, eps, indep=1e-4):
    """fs: [((y(a), y'(a)), (y(b), y'(b)))] of n eigenfunctions"""
    f = []
    for ya, yb in fs:
        v = [ya[0], ch.v(ya[1]), yb[0], ch.v(yb[1])]
        m = max(abs(t) for t in v)
        if m == 0: raise Bad('eigenfunction vanishes')
        s = Fraction(10) ** (-expo(m))
        f.append(dict(a=[enc(v[0] * s), enc(v[1] * s)], b=[enc(v[2] * s), enc(v[3] * s)], e=enc(frac(eps))))
    return dict(j='image', runs=[], o=dict(K=scaled_K(ch, K), f=f, n=n, indep=enc(frac(indep))))


def bands_case(queries, slack):
    """queries: [(lo, hi, [(ix, E, mult)..])]"""
    allE = [abs(frac(E)) for _, _, v in queries for _, E, _ in v] or [Fraction(1)]
    s = Fraction(10) ** (-max([expo(t) for t in allE if t != 0] + [expo(frac(slack))]))
    return dict(j='bands', runs=[], o=dict(slack=enc(max(frac(slack) * s, Fraction(2, 10 ** 16))),
                q=[dict(lo=lo, hi=hi, ix=[[i, m] for i, _, m in v], e=[enc(frac(E) * s) for _, E, _ in v]) for lo, hi, v in queries]))


def accuracy(tol, E, L, gap, vmin):
    import math
    """allowed error of a coupled eigenvalue: D(E) - 2 has a relative error of the order of the tolerance; close to a
    double eigenvalue D - 2 is quadratic in E, with curvature (L / (2 k))^2.  The solver stops at 1e-8 (relative)."""
    k = math.sqrt(max(E - vmin, 1.)) + 2 / L
    base = 100 * tol + 1e-6 * (1 + abs(E)) * .1
    q = 2 * k / L * math.sqrt(30 * tol)
    if gap is not None and gap > 0: q = min(q, (2 * k / L) ** 2 * 100 * tol / gap)
    return base + q
