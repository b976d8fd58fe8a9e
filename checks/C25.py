import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from cases import need
from expr import *
from fix import flo

EPS = dict(double=53, long=64, quad=113)
X = Expr('x')


def interval(rng):
    h = rng.choice([1.0, 2.0, 0.5, 1 / 64, 2.0 ** -20, 3.0, 0.75, 5.0, 100.0, 2.0 ** -40, 1000.0, rng.randint(1, 4095) / 1024])
    a = rng.choice([0.0, -h, -h / 2, 1.0, -1.0, h * rng.randint(-40, 40), rng.randint(-9, 9) + .25])
    return a, a + h


def main():
    chk = Check('C25', harness_default='leg')
    rng = chk.rng
    chk.model('Legendre')
    per = 100 if chk.thorough else 12
    for t in EPS:
        for n in range(1, 19):
            for r in range(per):
                a, b = interval(rng)
                if r < n and r % 3 == 0: f = [0] * (n - 1 - r // 3) + [1]
                elif r % 3 == 1: f = [rng.randint(-9, 9) for _ in range(rng.randint(1, n))]
                else: f = [rng.choice([0, 1, -1, rng.randint(-9, 9)]) for _ in range(n - 1)] + [rng.choice([1, -1, 7, -3])]
                u = rng.choice([0, 0, 0, 20, -20, -60])
                f = [math.ldexp(v, u) for v in f]
                s = (X - C(a)) / C(b - a)
                e = C(f[-1])
                for v in reversed(f[:-1]): e = e * s + C(v)
                line = 'leg %s %d %s %s %s' % (t, n, hx(a), hx(b), Piecewise([e]).text())
                pts = [flo(Fraction(0)), flo(Fraction(1))] + [flo(Fraction(rng.randint(1, 1023), 1024)) for _ in range(5)]

                def encode(ev, done, a=a, b=b, f=f, n=n, t=t, pts=pts):
                    if done['stray']: raise Bad('output: ' + done['stray'][:60])
                    if len(ev) != 1: raise Bad('missing results')
                    v = ev[0]
                    need(v)
                    h = Fraction(b) - Fraction(a)
                    co = [frac(x) for x in conv(v['c'])]
                    m = [frac(x) for x in conv(v.get('m', []))]
                    ps = [frac(x) for x in conv(v.get('p', []))]
                    if len(co) != n or (ps and len(ps) != n): raise Bad('sizes')
                    tol = 32 * Fraction(1, 2 ** EPS[t]) + Fraction(1, 10 ** 28)
                    o = dict(f=[flo(Fraction(x)) for x in f], n=n, len=flo(h), at=pts, tol=flo(tol), move=flo(Fraction(abs(a)) / h),
                             c=[flo(x * h ** i) for i, x in enumerate(co)], m=[flo(x * h ** (i // 4)) for i, x in enumerate(m)],
                             I=flo(frac(conv(v['I']))), p=[flo(x * h ** 0) for x in ps], same=bool(v['same']), inside=bool(v['in']))
                    return [('LegendreTrace', dict(j='projection', runs=[], o=o))]
                chk.add([line], encode, harness='leg', desc=dict(scalar=t, order=n, a=a, b=b, f=f, script=[line]))
    chk.run()


fail_on_error(main)
