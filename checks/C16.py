import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
import mpmath
from expr import SC


def jets(P, r):
    """Taylor coefficients of p, w (order 2) and q(r), exact decimals of the definition"""
    out = []
    for F, n in ((P.p, 3), (P.w, 3), (P.q, 1)):
        J = F.piece(float(r)).jet(frac(r), n)
        out.append([Fraction(c, SC) for c in J[:n]] + [Fraction(0)] * (n - len(J[:n])))
    return out


def ranks(*lists):
    v = sorted({x for l in lists for x in l})
    return {x: i for i, x in enumerate(v)}


NJ = 24


def root(u):
    """coefficients of the square root of a series with constant term 1 (floats): is it resolved?"""
    s = [1.]
    for k in range(1, len(u)): s.append((u[k] - sum(s[j] * s[k - j] for j in range(1, k))) / 2)
    return s


def map_steps(P, pts):
    """steps between the increasing points pts: {index of point: number of the step that starts there}, steps.
    On a step p = P0 p', w = W0 w' with p'(0) = w'(0) = 1; x' = h b sqrt(a w'), a = 1 / p', b^2 P0 = W0 in the units of the step"""
    brk = {frac(b) for F in (Piecewise.wrap(P.p), Piecewise.wrap(P.w)) for b in F.breaks if pts[0] < frac(b) < pts[-1]}
    allp = sorted(set(pts) | brk)
    pw, ww = Piecewise.wrap(P.p), Piecewise.wrap(P.w)
    at, steps = {}, []
    mpmath.mp.dps = 40
    for A, B in zip(allp, allp[1:]):
        at[A] = len(steps)
        mid = float((A + B) / 2)
        pe, we = pw.piece(mid), ww.piece(mid)
        x, H = A, B - A
        while x < B:
            jp, jw = pe.jet(x, NJ), we.jet(x, NJ)
            if jp[0] <= 0 or jw[0] <= 0: raise Bad('p, w')
            fp, fw = [float(Fraction(c, jp[0])) for c in jp], [float(Fraction(c, jw[0])) for c in jw]
            fp += [0.] * (NJ - len(fp))
            fw += [0.] * (NJ - len(fw))
            fa = [1.]
            for k in range(1, NJ): fa.append(-sum(fp[j] * fa[k - j] for j in range(1, k + 1)))
            H = min(H * 2, B - x)
            while True:
                h = float(H)
                a, w = [c * h ** k for k, c in enumerate(fa)], [c * h ** k for k, c in enumerate(fw)]
                s = root([sum(a[j] * w[k - j] for j in range(k + 1)) for k in range(NJ)])
                if max(map(abs, s[-4:])) < 1e-13 and max(map(abs, a[-4:] + w[-4:])) < 1e-12 and max(map(abs, a + w)) < 100: break
                H = H / 2
            a = [Fraction(1)]
            q, v = [Fraction(c, jp[0]) * H ** k for k, c in enumerate(jp)], [Fraction(c, jw[0]) * H ** k for k, c in enumerate(jw)]
            rnd = lambda t: Fraction(round(t * 10 ** 24), 10 ** 24)
            q, v = list(map(rnd, q)), list(map(rnd, v))
            for k in range(1, NJ): a.append(rnd(-sum(q[j] * a[k - j] for j in range(1, min(k, len(q) - 1) + 1))))
            P0, W0 = Fraction(jp[0], SC), Fraction(jw[0], SC)
            ep, ew = expo(P0), expo(W0)
            if (ew - ep) % 2: ew -= 1
            P0, W0 = P0 / Fraction(10) ** ep, W0 / Fraction(10) ** ew
            b = mpmath.sqrt(mpmath.mpf(W0.numerator) / W0.denominator / (mpmath.mpf(P0.numerator) / P0.denominator))
            steps.append(dict(a=[enc(t) for t in a], w=[enc(t) for t in v], p0=enc(P0), w0=enc(W0), b=enc(b), h=(H * Fraction(10) ** ((ew - ep) // 2))))
            x += H
    at[allp[-1]] = len(steps)
    return at, steps


def main():
    chk = Check('C16')
    rng = chk.rng
    chk.model('Liouville')
    N = 1500 if chk.thorough else 240
    plan = fixed_sl()
    while len(plan) < N: plan.append(random_sl(rng))
    first, extra = [], []
    for P in plan:
        pts = sorted({P.a, P.b} | {P.a + rng.random() * (P.b - P.a) for _ in range(rng.choice([3, 6, 12]))})
        first.append(Group('p%d' % len(first), P.fns() + [P.lt('o'), 'pieces o'] + ['r2x o ' + hx(x) for x in pts], None, harness='sl'))
        extra.append(pts)
    rec = chk.execute(first)
    for P, g, pts in zip(plan, first, extra):
        ev = rec[g.id][0]
        desc = dict(problem=P.describe())
        try:
            pcs = conv(need(ev[1])['pieces'])
            ends = [float(p[0]) for p in pcs[1:]]
            X = [float(pcs[0][2]), float(pcs[-1][3])]
        except (Bad, NonFinite, IndexError, KeyError):
            chk.add(g.script, lambda ev, done: [need(e) for e in ev] and (_ for _ in ()).throw(Bad('transformation')), harness='sl', desc=desc)
            continue
        rs = sorted(set(pts) | {e for e in rng.sample(ends, min(3, len(ends)))} | {math.nextafter(e, P.a) for e in rng.sample(ends, min(2, len(ends)))})
        rs = [r for r in rs if P.a <= r <= P.b]
        rr = [hx(r) for r in rs]
        xs = sorted({X[0], X[1]} | {X[0] + rng.random() * (X[1] - X[0]) for _ in range(4)} | {float(p[2]) for p in rng.sample(pcs, min(2, len(pcs)))})
        V = [0.] * len(xs)
        z = [float('%.4g' % rng.uniform(-2, 2)) for _ in range(4)]
        script = P.fns() + [P.lt('o'), 'pieces o'] + ['r2x o ' + r for r in rr] + ['x2r o ' + hx(x) for x in xs] + ['ltV o ' + hx(x) for x in xs]
        zr = rng.sample(rs, min(len(rs), 4)) + [P.a, P.b]
        for r in zr:
            script += ['z2y o %s 0x1p+0 0x0p+0 0x0p+0 0x0p+0' % hx(r), 'z2y o %s 0x0p+0 0x1p+0 0x0p+0 0x0p+0' % hx(r),
                       'z2y o %s 0x0p+0 0x0p+0 0x1p+0 0x0p+0' % hx(r), 'z2y o %s 0x0p+0 0x0p+0 0x0p+0 0x1p+0' % hx(r)]
        for x in xs:
            for i in range(4): script.append('y2z o %s %s' % (hx(x), ' '.join(hx(float(i == j)) for j in range(4))))

        def encode(ev, done, P=P, rs=rs, xs=xs, zr=zr, z=z):
            if done['stray']: raise Bad('output: ' + done['stray'][:60])
            it = iter(ev)
            assert next(it)['ev'] == 'lt'
            p = need(next(it), 'pieces')
            pcs, xd, rd = conv(p['pieces']), conv(p['xd']), conv(p['rd'])
            take = lambda kind, n, key='v': [conv(need(next(it), kind)[key]) for _ in range(n)]
            X = take('r2x', len(rs))
            R = take('x2r', len(xs))
            VV = take('ltV', len(xs))
            Z = [take('z2y', 4, 'Y') for _ in zr]
            W = [take('y2z', 4, 'Y') for _ in xs]
            out = []
            # pieces
            rk = ranks([t for q in pcs for t in q[:2]], rd, [frac(P.a), frac(P.b)])
            if rk[rd[0]] != rk[frac(P.a)] or rk[rd[1]] != rk[frac(P.b)]: raise Bad('domain')
            xk = ranks([t for q in pcs for t in q[2:]], xd, [Fraction(0)])
            out.append(('LiouTrace', dict(j='pieces', o=dict(r=[[rk[q[0]], rk[q[1]]] for q in pcs], x=[[xk[q[2]], xk[q[3]]] for q in pcs],
                        rd=[rk[rd[0]], rk[rd[1]]], xd=[xk[xd[0]], xk[xd[1]]], zero=xk[Fraction(0)]))))
            # the map at the requested r and at the recorded images of the requested x
            pairs = {frac(r): x for r, x in zip(rs, X)}
            for r, x in zip(R, xs):
                if not frac(P.a) <= r <= frac(P.b): raise Bad('x2r leaves the domain')
                pairs.setdefault(r, frac(x))
            sep = 1e-9 * (P.b - P.a)
            pts, last = [], None
            for r in sorted(pairs):
                if last is None or float(r - last) > sep or r == frac(P.b):
                    if r == frac(P.b) and last is not None and float(r - last) <= sep and last != frac(P.a): pts.pop()
                    pts.append(r)
                    last = r
            total = float(xd[1])
            out.append(('LiouTrace', dict(j='near', o=dict(p=[near('left end', pairs[frac(P.a)], 0, 1e-10 * total), near('right end', pairs[frac(P.b)], xd[1], 1e-10 * total)]))))
            at, steps = map_steps(P, pts)
            om = Fraction(10) ** (-expo(xd[1]))   # x in units of 1 / om
            for st in steps: st['h'] = enc(st['h'] * om)
            k0 = 0
            for r0, r1 in zip(pts, pts[1:]):
                k1 = at[r1]
                d = (pairs[r1] - pairs[r0]) * om
                out.append(('LiouTrace', dict(j='map', s=steps[k0:k1], o=dict(last=enc(d), eps=enc(frac(float(os.environ.get('MK', 1e-7))) * frac(total) * om + frac(3e-14))))))
                k0 = k1
            order = [pairs[r] for r in pts]
            ok = ranks(order)
            out.append(('LiouTrace', dict(j='order', o=dict(y=[ok[x] for x in order]))))
            # inverse directions
            out.append(('LiouTrace', dict(j='near', o=dict(p=[near('x2r end', R[0], frac(P.a), 1e-9 * (P.b - P.a)), near('x2r end', R[-1], frac(P.b), 1e-9 * (P.b - P.a))]))))
            # the transformed potential at the recorded x2r(x)
            v = []
            for x, r, V in zip(xs, R, VV):
                p, w, q = jets(P, r)
                P0, W0 = Fraction(10) ** expo(p[0]), Fraction(10) ** expo(w[0])
                pp, ww = [t / P0 for t in p], [t / W0 for t in w]
                mag = lambda h: max(abs(pp[1] * h), abs(pp[2] * h * h), abs(ww[1] * h), abs(ww[2] * h * h), abs(q[0] * h * h / P0), abs(V * W0 * h * h / P0))
                h = Fraction(1)
                while mag(h) > 10: h /= 10
                while mag(h) < 1 and h < 10 ** 6: h *= 10
                # accuracy of the piecewise polynomials: relative to the variation of p w over the domain
                v.append(dict(p=[enc(pp[0]), enc(pp[1] * h), enc(pp[2] * h * h)], w=[enc(ww[0]), enc(ww[1] * h), enc(ww[2] * h * h)],
                              q=enc(q[0] * h * h / P0), V=enc(V * W0 * h * h / P0), e=enc(frac(float(os.environ.get('VK', 1e-5))) * max(1, h * h * W0 / P0 / frac(total) ** 2))))
            out.append(('LiouTrace', dict(j='potential', o=dict(v=v))))
            # values
            zs = []

            def value(r, Y):
                p, w, q = jets(P, r)
                e = 2 * (round(math.log10(float(p[0] * w[0])) / 4))
                s = Fraction(10) ** e
                t = Fraction(10) ** (e // 2)
                h = Fraction(1)
                while max(abs(p[1] / s * h), abs(w[1] / s * h)) > 10: h /= 10
                a, b, c, d = Y
                big = max(p[0] / s, w[0] / s, 1)
                zs.append(dict(p=[enc(p[0] / s), enc(p[1] / s * h)], w=[enc(w[0] / s), enc(w[1] / s * h)], m=enc(a[0] / t), m1=enc(a[1] / t * h), e=enc(b[1] / t),
                               e1=enc(frac(1e-8) * big ** 2), e2=enc(frac(1e-7) * big ** 2)))
                m = max(abs(float(a[0])), abs(float(b[1])), abs(float(a[1])))
                out.append(('LiouTrace', dict(j='near', o=dict(p=[near('zero', y, 0, 1e-10 * m) for y in (a[2], a[3], b[0], b[2], b[3], c[0], c[1], d[0], d[1], d[2])]
                            + [near('dE', c[2], a[0], 1e-10 * m), near('dE', c[3], a[1], 1e-10 * m), near('dE', d[3], b[1], 1e-10 * m)]))))
            for r, Y in zip(zr, Z): value(frac(r), Y)
            # y2z is the inverse matrix at the same point: columns (1,0) -> (1/m, -m1/(m e)), (0,1) -> (0, 1/e)
            for x, r, Y in zip(xs, R, W):
                (s0, s1, _, _), (_, t1, _, _) = Y[0], Y[1]
                if s0 <= 0 or t1 <= 0: raise Bad('y2z is not orientation preserving')
                m, e = 1 / s0, 1 / t1
                m1 = -s1 * m * e
                value(r, [(m, m1, Fraction(0), Fraction(0)), (Fraction(0), e, Fraction(0), Fraction(0)), (Fraction(0), Fraction(0), m, m1), (Fraction(0), Fraction(0), Fraction(0), e)])
                a, b, c, d = Y
                mm = max(abs(float(t)) for t in a + b)
                out.append(('LiouTrace', dict(j='near', o=dict(p=[near('zero', y, 0, 1e-10 * mm) for y in (a[2], a[3], b[0], b[2], b[3], c[0], c[1], d[0], d[1], d[2])]
                            + [near('dE', c[2], a[0], 1e-10 * mm), near('dE', c[3], a[1], 1e-10 * mm), near('dE', d[3], b[1], 1e-10 * mm)]))))
            out.append(('LiouTrace', dict(j='values', o=dict(z=zs))))
            return out
        chk.add(script, encode, harness='sl', desc=desc)
    chk.run()


fail_on_error(main)
