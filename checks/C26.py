import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from cases import need
from fix import flo

EPS = dict(double=53, long=64, quad=113)
COUNTS = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14]


def arguments(rng, t, n):
    u = 2.0 ** -50
    top = 4.8e5 if t == 'double' else 1e7
    special = [0.0, 1e-300, -1e-300, 1e-18, -1e-18, 1e-9, -1e-9, 1.0, -1.0, 4.0, -4.0, 100.0, -100.0, 100 * (1 - u), -100 * (1 - u), 100 * (1 + u), -100 * (1 + u),
               99.0, -99.0, 101.0, -101.0, 500.0, -500.0, 500.5, top, -1e8, -math.pi ** 2, -math.pi ** 2 / 4, -(3.5 * math.pi) ** 2, -4 * math.pi ** 2]
    out = list(special)
    bands = [(0, 1e-3), (0, 1), (1, 10), (10, 30), (30, 70), (70, 99.9999), (99, 101), (100, 130), (100, 500), (500, 3000), (3000, top)]
    while len(out) < n:
        lo, hi = rng.choice(bands)
        z = rng.uniform(lo, hi) if rng.random() < .5 or lo == 0 else math.exp(rng.uniform(math.log(lo), math.log(hi)))
        if rng.random() < .2: z = float(round(z))
        if rng.random() < .1 and hi > 3000: z = math.exp(rng.uniform(math.log(3000), math.log(1e8))) * -1
        out.append(-z if rng.random() < .5 and z > 0 else z)
    return out


def main():
    chk = Check('C26', harness_default='eta')
    rng = chk.rng
    chk.model('EtaMC')
    for t in EPS:
        per = (1400 if t == 'double' else 700) * (10 if chk.thorough else 1)
        zs = arguments(rng, t, per)
        for i in range(0, per, 10):
            part = zs[i:i + 10]
            ns = [14] + rng.sample(COUNTS[:-1], 2)
            args = '%d %s' % (len(part), ' '.join(hx(z) for z in part))
            script = ['eta %s %d %s' % (t, n, args) for n in ns] + ['etaA %s %d %s' % (t, n, args) for n in (rng.choice(ns), rng.choice(COUNTS))]

            def encode(ev, done, part=part, t=t, script=script):
                if done['stray']: raise Bad('output: ' + done['stray'][:60])
                if len(ev) < len(script): raise Bad('missing results')
                for e in ev: need(e)
                cases = []
                for j, z in enumerate(part):
                    v = []
                    for e in ev:
                        row = [frac(x) for x in conv(e['e'])[j]]
                        v.append([flo(x) for x in row])
                    tol = 64 * Fraction(1, 2 ** EPS[t]) + Fraction(1, 10 ** (25 if abs(z) < 100 else 21))
                    cases.append(('EtaTrace', dict(j='eta', runs=[], o=dict(Z=flo(z), v=v, tol=flo(tol)))))
                return cases
            chk.add(script, encode, harness='eta', desc=dict(scalar=t, Z=part, script=script))
    chk.run()


fail_on_error(main)
