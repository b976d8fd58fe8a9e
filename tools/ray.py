"""Builds the step chains of spec/Ray.tla from problem definitions (never from the code under test)."""
import math
from fractions import Fraction
from expr import Piecewise, Expr, SC, C
from fix import enc, encj, frac, ints
from expr import DEC

NJ = 26  # jet length
NT_HI = 40


class OutOfRange(Exception):
    pass


def snap(x):
    """positions far below the resolution of the specification are 0"""
    x = frac(x)
    return x if abs(x) > Fraction(1, 10 ** 60) else Fraction(0)


class Chain:
    """A chain of steps along the points xs (monotone) for -(p u')' + q u = E w u."""

    def __init__(self, V, pts, Emax, Emin=None, p=None, w=None, hk=1.5, F=4, extra_tol=None):
        """pts: monotone list of physical points to be hit (floats/Fractions); idx[i] = step index at pts[i]"""
        self.F = F
        q = Piecewise.wrap(V)
        p = None if p is None else Piecewise.wrap(p)
        w = None if w is None else Piecewise.wrap(w)
        self.schr = p is None and w is None
        pts = [snap(x) for x in pts]
        forward = pts[-1] >= pts[0]
        dirn = 1 if forward else -1
        lo, hi = min(pts[0], pts[-1]), max(pts[0], pts[-1])
        brk = set()
        for f in (q, p, w):
            if f is not None:
                brk |= {frac(b) for b in f.breaks if lo < frac(b) < hi}
        allp = sorted(set(pts) | brk, reverse=not forward)
        Es = [Emax] if Emin is None else [Emin, Emax]
        self.Es = (float(min(Es)), float(max(Es)))
        # global omega
        M = 1e-3
        for i in range(65):
            x = float(lo) + (float(hi) - float(lo)) * (i + .5) / 65
            for E in Es:
                pv = p(x) if p else 1.
                wv = w(x) if w else 1.
                M = max(M, abs(E * wv - q(x)) * pv)
        om = math.sqrt(M)
        om = float('%.3g' % max(om, 1.0))
        self.om = Fraction(om)
        self.steps = []
        self.xs = [allp[0]]
        self.idx = {allp[0]: 0}
        small = 10 ** (DEC - 4 * F - 3)
        cut = 10 ** (DEC - 4 * F - 1)
        for A, Bx in zip(allp, allp[1:]):
            mid = float((A + Bx) / 2)
            qe, pe, we = q.piece(mid), (p.piece(mid) if p else None), (w.piece(mid) if w else None)
            x = A
            it = 0
            while x != Bx:
                rem = abs(Bx - x)
                it += 1
                if it > 20000: raise OutOfRange('too many steps')
                h = float(rem)
                # oscillation bound
                for _ in range(60):
                    m = 0
                    for k in range(9):
                        xx = float(x) + dirn * h * k / 8
                        pv = pe(xx) if pe else 1.
                        wv = we(xx) if we else 1.
                        for E in Es:
                            m = max(m, abs((E * wv - qe(xx)) / pv))
                    if h * math.sqrt(m) <= hk: break
                    h = min(h * .9, hk / math.sqrt(m) * .999) if m > 0 else h
                jq = qe.jet(x, NJ)
                ja = [SC] if pe is None else Expr('/', C(1), pe).jet(x, NJ)
                jw = [SC] if we is None else we.jet(x, NJ)
                while True:
                    H = frac(h)
                    ok = True
                    for J in (jq, ja, jw):
                        if len(J) == 1: continue
                        s = max(abs(c) * H ** (k + 1) * max(om if J is not jq else 1, 1) for k, c in enumerate(J) if k >= 16)
                        if s > 200 * cut: ok = False
                    if ok: break
                    h *= .8
                while not self.converges(jq, ja, jw, h, om, Es):
                    h *= .8
                n = max(1, math.ceil(float(rem) / h - 1e-9))
                if n == 1:
                    H = rem
                else:
                    H = frac(float('%.6g' % min(h, float(rem) / n)))
                    if H >= rem: H = rem
                Hd = H * dirn
                def coeffs(J, f):
                    r = []
                    for k, c in enumerate(J):
                        t = frac(c) * f * Hd ** k
                        r.append((2 * t.numerator + t.denominator) // (2 * t.denominator))
                    while len(r) > 1 and abs(r[-1]) < cut: r.pop()
                    return r
                st = dict(a=[encj(c, F) for c in coeffs(ja, Hd * self.om)],
                          q=[encj(c, F) for c in coeffs(jq, Hd / self.om)],
                          w=[encj(c, F) for c in coeffs(jw, Hd * self.om)])
                for k in st: assert len(st[k]) <= 26
                self.steps.append(st)
                x = x + Hd
                self.xs.append(x)
            self.idx[Bx] = len(self.steps)

    def converges(self, jq, ja, jw, h, om, Es):
        """majorant of the Taylor coefficients of the solution: the terms the specification leaves out are negligible"""
        if len(jq) == 1 and len(ja) == 1 and len(jw) == 1: return True
        nt, tail = (22, 3e-15) if self.F == 4 else (NT_HI, 1e-30)
        hk = [h ** k for k in range(27)]
        f = 1. / float(SC)
        a = [abs(c) * f * hk[k + 1] * om for k, c in enumerate(ja[:26])]
        E = max(abs(e) for e in Es)
        n = max(len(jq), len(jw))
        if len(jw) == 1: # the constant terms cancel for w = 1
            q = [max(abs(jq[0] * f - e * jw[0] * f) for e in Es) * h / om] + [abs(c) * f * hk[k + 1] / om for k, c in enumerate(jq[:26]) if k]
        else:
            q = [((abs(jq[k]) * f if k < len(jq) else 0) + (E * abs(jw[k]) * f if k < len(jw) else 0)) * hk[k + 1] / om for k in range(min(n, 26))]
        u, v = [1.], [1.]
        for k in range(nt + 3):
            nu = sum(a[j] * v[k - j] for j in range(min(k + 1, len(a)))) / (k + 1)
            nv = sum(q[j] * u[k - j] for j in range(min(k + 1, len(q)))) / (k + 1)
            u.append(nu)
            v.append(nv)
        return u[nt + 1] + u[nt + 2] + u[nt + 3] + v[nt + 1] + v[nt + 2] + v[nt + 3] < tail

    def at(self, x):
        return self.idx[snap(x)]

    def g(self, E):
        slack = float(self.om) ** 2
        if not self.Es[0] - slack <= E <= self.Es[1] + slack: raise OutOfRange('energy %g outside of the range %s of the chain' % (E, self.Es))
        return enc(frac(E) / self.om ** 2, self.F)

    def v(self, dy):
        """derivative -> scaled derivative"""
        return frac(dy) / self.om

    def json(self):
        return self.steps
