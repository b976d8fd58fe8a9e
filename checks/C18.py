import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from csys import *
from cases import need, near


def main():
    chk = Check('C18', harness_default='cs')
    rng = chk.rng
    walks = chk.behaviours('Walk')
    N = 1200 if chk.thorough else 130
    K, KE = float(os.environ.get('DK', 12)), float(os.environ.get('DE', 12))
    for q in range(N):
        n = rng.choice([1, 2, 2, 2, 3] + ([4] if chk.thorough else []))
        diagonal = n > 1 and rng.random() < .2
        S = random_system(rng, n, diagonal=diagonal)
        tol = rng.choice([1e-4, 1e-6, 1e-8, 1e-9])
        script = S.lines() + [S.cs('o', tol), 'sectors o']
        props = []
        for _ in range(3):
            E, y = energy(rng, S), general(rng, n)
            props.append((E, y))
            script.append('prop o %s %s %s %s %d' % (hx(E), ytxt(y), positions(rng, S), positions(rng, S), int(rng.random() < .9)))
        # walks over four labelled points
        E, y = energy(rng, S), general(rng, n)
        pts = [positions(rng, S) for _ in range(4)]
        ws = rng.sample(walks, 10 if chk.thorough else 5)
        pairs = sorted({(w[0], w[-1]) for w in ws})
        for i, j in pairs: script.append('walk o %s %s 1 %s %s' % (hx(E), ytxt(y), pts[i - 1], pts[j - 1]))
        for w in ws: script.append('walk o %s %s %d %s' % (hx(E), ytxt(y), len(w) - 1, ' '.join(pts[i - 1] for i in w)))
        # columns
        a, b = pts[0], pts[1]
        script += ['prop o %s %s %s %s 1' % (hx(E), ytxt(y), a, b), 'propc o %s %s %s %s 1' % (hx(E), ytxt(y), a, b)]
        script += ['propc1 o %s %s %s %s 1' % (hx(E), ytxt([c]), a, b) for c in y]
        al, be = r3(rng.uniform(-3, 3)), r3(rng.uniform(-3, 3))
        z = [float(al * s + be * t) for s, t in zip(y[0], y[-1])]
        script.append('propc1 o %s %s %s %s 1' % (hx(E), ytxt([z]), a, b))
        # separate channels of a diagonal potential
        if diagonal:
            for i in range(n):
                d = System([[S.V[i][i]]], S.a, S.b)
                script += ['fn d%d %s' % (i, S.V[i][i].text())]
                d.names = ['d%d' % i]
                script += [d.cs('c%d' % i, tol), 'propc1 c%d %s %s %s %s 1' % (i, hx(E), ytxt([[y[0][i], y[0][n + i], y[0][2 * n + i], y[0][3 * n + i]]]), hx(S.a), hx(S.b))]
            script.append('propc1 o %s %s %s %s 1' % (hx(E), ytxt([y[0]]), hx(S.a), hx(S.b)))

        def encode(ev, done, S=S, n=n, tol=tol, props=props, E=E, y=y, ws=ws, pairs=pairs, al=al, be=be, diagonal=diagonal):
            if done['stray']: raise Bad('output: ' + done['stray'][:60])
            it = iter(ev)
            need(next(it), 'cs')
            sec = conv(need(next(it), 'sectors')['s'])
            out = []
            for E_, y_ in props:
                e = need(next(it), 'prop')
                a, b = conv(e['ab'])
                ch = CChain(S, [a, b], E_)
                c = cols_case(chk, S, ch, E_, y_, conv(e['Y']), tol, K, detour(S, E_, sec, [a, b]), KE)
                if c: out.append(c)
            A = Legs(S, E, sec, K, tol)
            ps = []
            direct = {}
            for p in pairs:
                e = need(next(it), 'walk')
                direct[p] = conv(e['Y']), conv(e['x'])
            col = lambda Ys, j: [Y[j] for Y in Ys]
            for w in ws:
                e = need(next(it), 'walk')
                Y, xs = conv(e['Y']), conv(e['x'])
                Yd, xd = direct[w[0], w[-1]]
                for j in range(n):
                    b1, b2 = A.bound(col(Y, j), xs), A.bound(col(Yd, j), xd)
                    p, q = A.scaled(Y[-1][j]), A.scaled(Yd[-1][j])
                    if b1[0] > 1e-2 * max(abs(float(t)) for t in p[:2 * n] + [frac(1e-300)]): continue
                    for c in range(4 * n): ps.append(near('%s column %d component %d' % (w, j, c), p[c], q[c], b1[c // (2 * n)] + b2[c // (2 * n)]))
            full = need(next(it), 'prop')
            a, b = conv(full['ab'])
            m, kap, L = A.leg(a, b)
            C = [A.scaled(c) for c in conv(full['Y'])]
            cols = [A.scaled(c) for c in conv(need(next(it), 'propc')['Y'])]
            sz = [A.size(c) for c in y]
            big, bigE = max(s[0] for s in sz), max(s[1] for s in sz)
            r = lambda c, f=1.: 1e-11 * kap * f * (big if c < 2 * n else big * (L + 1) + bigE)
            for j in range(n):
                for c in range(4 * n): ps.append(near('column %d' % j, C[j][c], cols[j][c], r(c)))
            single = []
            for j in range(n):
                single.append(A.scaled(conv(need(next(it), 'propc1')['Y'])[0]))
                for c in range(4 * n): ps.append(near('single column %d' % j, C[j][c], single[j][c], r(c)))
            zl = A.scaled(conv(need(next(it), 'propc1')['Y'])[0])
            for c in range(4 * n): ps.append(near('linear', frac(al) * single[0][c] + frac(be) * single[-1][c], zl[c], r(c, abs(al) + abs(be) + 1)))
            # matrix Wronskian: u_i . v_j - v_i . u_j
            W = lambda p, q: sum(p[k] * q[n + k] - p[n + k] * q[k] for k in range(n))
            Y0 = [A.scaled(c) for c in y]
            nrm = lambda c: max(abs(float(t)) for t in c[:2 * n])
            for i in range(n):
                for j in range(i):
                    ps.append(near('wronskian', W(Y0[i], Y0[j]), W(C[i], C[j]), (K * tol + 1e-12) * kap * n * (nrm(Y0[i]) * nrm(C[j]) + nrm(Y0[j]) * nrm(C[i]))))
            if diagonal:
                chans = []
                for i in range(n):
                    need(next(it), 'cs')
                    chans.append(conv(need(next(it), 'propc1')['Y'])[0])
                f = conv(need(next(it), 'propc1')['Y'])[0]
                f, g = A.scaled(f), A.scaled([chans[i][c] for c in range(4) for i in range(n)])
                e, eE = A.bound([y[0]], [S.a, S.b])
                if e < 1e-2 * max(abs(float(t)) for t in f[:2 * n]):
                    for c in range(4 * n): ps.append(near('separate channel', f[c], g[c], 2 * (e if c < 2 * n else eE)))
            out.append(('RayTrace', dict(j='near', runs=[], o=dict(p=ps))))
            return out
        chk.add(script, encode, harness='cs', desc=dict(problem=S.describe(), tol=tol, queries=[s[:12] + ' ... ' + s[-80:] for s in script if s.split()[0] in ('prop', 'walk', 'propc1')]))
    chk.run()


fail_on_error(main)
