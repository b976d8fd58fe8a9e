import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from propplan import *


def main():
    chk = Check('C05')
    rng = chk.rng
    walks = chk.behaviours('Walk')
    N = 1200 if chk.thorough else 160
    K = float(os.environ.get('DK', 10))
    per = 24 if chk.thorough else 14
    plan = fixed_problems()
    while len(plan) < N: plan.append(random_problem(rng))
    for P in plan:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        # four labelled points; walks over them from the model
        pts = [pos(rng, P) for _ in range(4)]
        E = energy(rng, P)
        y = random_y(rng, rng.random() < .5)
        y2 = random_y(rng, False)
        al, be = r3(rng.uniform(-3, 3)), r3(rng.uniform(-3, 3))
        ws = rng.sample(walks, per)
        pairs = sorted({(w[0], w[-1]) for w in ws})
        yt = lambda v: ' '.join(hx(t) for t in v)
        script = [P.fn(), P.ms('o', tol), 'sectors o']
        script += ['walk o %s %s 1 %s %s' % (E, yt(y), pts[i - 1], pts[j - 1]) for i, j in pairs]
        script += ['walk o %s %s %d %s' % (E, yt(y), len(w) - 1, ' '.join(pts[i - 1] for i in w)) for w in ws]
        lin = [float(al * s + be * t) for s, t in zip(y, y2)]
        a, b = pts[0], pts[1]
        script += ['prop2 o %s %s %s %s %s 1' % (E, yt(y), yt(y2), a, b), 'prop o %s %s %s %s 1' % (E, yt(y), a, b), 'prop o %s %s %s %s 1' % (E, yt(y2), a, b),
                   'prop o %s %s %s %s 1' % (E, yt(lin), a, b)]

        def encode(ev, done, P=P, tol=tol, y=y, y2=y2, al=al, be=be, ws=ws, pairs=pairs):
            need(ev[0], 'ms')
            sec = conv(need(ev[1], 'sectors')['s'])
            if sum(1 for e in ev if 'exc' in e): raise Bad('exception')
            E = hexnum(ev[2]['E'])
            if max(0., P.vmax() - float(E)) ** .5 * (P.b - P.a) * 4 > 600: return []
            A = Amp(P.V, E, P.a, P.b, sec)
            om = frac(A.om)
            mesh = {s[0] for s in sec} | {s[1] for s in sec}
            sc = (Fraction(1), 1 / om, om ** 2, om)
            S = lambda v: [c * s for c, s in zip(v, sc)]

            def bound(states, xs):
                e = eE = 0.
                for k in range(len(xs) - 1):
                    st = [abs(float(t)) for t in S(states[k])]
                    m, kap, L = A.leg(xs[k], xs[k + 1])
                    d = (K * tol + 1e-12) * kap * (max(st[:2]) + e)
                    self_ = (1e-15 if xs[k] in mesh else 3 * tol + 1e-12)
                    if xs[k] == xs[k + 1]: d = self_ * kap * max(st[:2])
                    dE = (K * tol + 1e-12) * kap * ((max(st[2:]) + eE) + (L + 1) * (max(st[:2]) + e))
                    if xs[k] == xs[k + 1]: dE = self_ * kap * (max(st[2:]) + max(st[:2]) * (1 + A.om * (P.b - P.a)))
                    eE = m * eE + kap * (L + 1) * e + dE
                    e = m * e + d
                return e, eE
            direct, ps = {}, []
            n = len(pairs)
            for (i, j), e in zip(pairs, ev[2:2 + n]):
                direct[i, j] = conv(e['Y']), conv(e['x'])
            for w, e in zip(ws, ev[2 + n:]):
                Y, xs = conv(e['Y']), conv(e['x'])
                Yd, xd = direct[w[0], w[-1]]
                b1, b2 = bound(Y, xs), bound(Yd, xd)
                p, q = S(Y[-1]), S(Yd[-1])
                if b1[0] > 1e-2 * max(abs(float(t)) for t in p[:2] + [frac(1e-300)]): continue
                for c in range(4):
                    ps.append(near('%s component %d' % (w, c), p[c], q[c], b1[c // 2] + b2[c // 2]))
            p2, s1, s2, sl = ev[2 + n + len(ws):]
            a, b = conv(p2['ab'])
            m, kap, L = A.leg(a, b)
            C = [S(c) for c in conv(p2['Y'])]
            s1, s2, sl = (S(conv(e['Y'])) for e in (s1, s2, sl))
            n1, n2 = (max(abs(float(t)) for t in S(v)[:2]) for v in (y, y2))
            nE = max(abs(float(t)) for t in S(y)[2:] + S(y2)[2:])
            size = kap * (n1 + n2) * (abs(al) + abs(be) + 1)
            round_ = [1e-12 * size, 1e-12 * size, 1e-12 * (size * (L + 1) + kap * nE), 1e-12 * (size * (L + 1) + kap * nE)]
            for c in range(4):
                ps.append(near('column 1', C[0][c], s1[c], round_[c]))
                ps.append(near('column 2', C[1][c], s2[c], round_[c]))
                ps.append(near('linear', frac(al) * s1[c] + frac(be) * s2[c], sl[c], round_[c]))
            W0 = S(y)[0] * S(y2)[1] - S(y)[1] * S(y2)[0]
            W1 = C[0][0] * C[1][1] - C[0][1] * C[1][0]
            e = (K * tol + 1e-12) * kap
            ps.append(near('wronskian', W0, W1, e * (n1 * max(abs(float(t)) for t in C[1][:2]) + n2 * max(abs(float(t)) for t in C[0][:2]))))
            return [('RayTrace', dict(j='near', runs=[], o=dict(p=ps)))]
        chk.add(script, encode, desc=dict(problem=P.describe(), tol=tol, E=E, points=pts, y=y))
    chk.run()


fail_on_error(main)
