"""Triage aid (no verdict depends on it): the ray machine of spec/Ray.tla in Python integers."""
from fractions import Fraction
from fix import B, frac


def unl(l):
    return sum(a * B ** i for i, a in enumerate(l))


class Ref:
    def __init__(self, ch):
        self.ch = ch
        self.S = 10 ** (4 * ch.F)
        self.steps = [{k: [unl(x) for x in s[k]] for k in s} for s in ch.steps]

    def ray(self, y, dy, E, i0=0, i1=None):
        S = self.S
        g = int(frac(E) / self.ch.om ** 2 * S)
        u, v = frac(y), self.ch.v(dy)
        m = max(abs(u), abs(v))
        u, v = int(u / m * S), int(v / m * S)
        z, ex = 0, m
        i1 = len(self.steps) if i1 is None else i1
        if i0 == i1: return u, v, 0, ex
        s = (u > 0) - (u < 0) or ((v > 0) - (v < 0)) * (1 if self.steps[i0]['a'][0] > 0 else -1)
        for st in self.steps[i0:i1]:
            a, q, w = st['a'], st['q'], st['w']
            Q = [(q[j] if j < len(q) else 0) - (g * w[j] // S if j < len(w) else 0) for j in range(max(len(q), len(w)))]
            fu, fv = [u], [v]
            for k in range(22):
                fu.append(sum(a[j] * fv[k - j] for j in range(min(k + 1, len(a)))) // (S * (k + 1)))
                fv.append(sum(Q[j] * fu[k - j] for j in range(min(k + 1, len(Q)))) // (S * (k + 1)))
            u, v = sum(fu), sum(fv)
            s1 = (u > 0) - (u < 0)
            if s1 != s: z += 1
            s = s1 or ((v > 0) - (v < 0)) * (1 if a[0] > 0 else -1)
            m = max(abs(u), abs(v))
            u, v = u * S // m, v * S // m
            ex = ex * Fraction(m, S)
        return u, v, z, ex

    def count(self, l, r, E):
        u, v, z, _ = self.ray(*l, E)
        ru, rv = frac(r[0]), self.ch.v(r[1])
        if ru < 0 or (ru == 0 and rv < 0): ru, rv = -ru, -rv
        if u < 0: u, v = -u, -v
        return z if ru == 0 else z + (v * ru < u * rv)

    def eigen(self, l, r, n, lo, hi, it=60):
        lo, hi = Fraction(lo), Fraction(hi)
        for _ in range(it):
            m = (lo + hi) / 2
            if self.count(l, r, m) > n: hi = m
            else: lo = m
            lo = Fraction(float(lo)); hi = Fraction(float(hi))
            if hi - lo < Fraction(1, 10 ** 13): break
        return float((lo + hi) / 2)
