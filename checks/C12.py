import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain

I, A = (1., 0., 0., 1.), (-1., 0., 0., -1.)


def labels(kind, P, mesh, rng, pos):
    """concrete points for the positions of Evaluate.tla (S = 3)"""
    a, b = P.a, P.b
    if kind == 'half': a = 0.
    if mesh:
        mi = int(mesh['mi'])
        s = [(float(t[0]), float(t[1])) for t in conv(mesh['s'])]
        m = [s[0][0], s[mi][0], s[mi][1], s[-1][1]]
        if mi == 0: m[1] = rng.choice(s)[1]
    else:
        m = [a, a + (b - a) * .3, a + (b - a) * .7, b]
    m.sort()
    L = b - a
    out = []
    for p in pos:
        q = abs(p) if kind == 'half' else p
        if q < 0: x = a - rng.choice([1e-3, .3, 10]) * L
        elif q > 6: x = b + rng.choice([1e-3, .3, 10]) * L
        elif q % 2 == 0: x = m[q // 2]
        else: x = m[q // 2] + rng.random() * (m[q // 2 + 1] - m[q // 2])
        out.append(-x if kind == 'half' and p < 0 else x)
    return sorted(out) if kind == 'half' else out


def main():
    chk = Check('C12')
    rng = chk.rng
    beh = chk.behaviours('Evaluate')
    full = [t['a'] for t in beh if t['m'] == 'full']
    half = [t['a'] for t in beh if t['m'] == 'half']
    rng.shuffle(full); rng.shuffle(half)
    per = 60
    N = 1500 if chk.thorough else 330
    plan = []
    for P in fixed_problems():
        plan.append(('ms', P))
        if P.even: plan.append(('half', P))
    for S in fixed_sl(): plan.append(('sl', S))
    while len(plan) < N:
        k = rng.random()
        if k < .45: plan.append(('ms', random_problem(rng)))
        elif k < .75: plan.append(('half', random_problem(rng, even=True)))
        elif k < .9: plan.append(('sl', random_sl(rng)))
        else: plan.append(('per', random_problem(rng)))
    meta, probe = [], []
    for n, (kind, P) in enumerate(plan):
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        l, r = random_bc(rng), random_bc(rng)
        i0 = rng.choice([0, 0, 1, 2, 3, 6])
        h = {'sl': 'sl', 'per': 'per'}.get(kind, 'core')
        if kind == 'half': mk, bc = [P.fn(), P.half('o', tol)], bc_txt(r)
        elif kind == 'ms': mk, bc = [P.fn(), P.ms('o', tol)], bc_txt(l) + ' ' + bc_txt(r)
        elif kind == 'per': mk, bc = [P.fn(), 'per o V %s %s %s %s %s' % (P.a.hex(), P.b.hex(), tol.hex(), P.builder(), ' '.join(hx(t) for t in rng.choice([I, A])))], ''
        else: mk, bc = P.fns() + [P.sl('o', tol)], bc_txt(l) + ' ' + bc_txt(r)
        ep = ('ep1' if kind == 'half' else 'ep') + ' f o %d %d %s' % (i0, i0 + (4 if kind == 'per' else 1), bc)
        if kind in ('ms', 'half') and not resolved(P.V, P.a, P.b, l if kind == 'ms' else (r[0], -r[1]), r, i0, tol): continue
        meta.append((kind, P, tol, i0, mk, ep, h))
        probe.append(Group('p%d' % len(probe), mk + (['sectors o'] if kind in ('ms', 'half', 'per') else []) + [ep], None, harness=h))
    rec = chk.execute(probe)
    for n, (kind, P, tol, i0, mk, ep, h) in enumerate(meta):
        ev, done = rec['p%d' % n]
        mesh = next((e for e in ev if e['ev'] == 'sectors'), None)
        src = half if kind == 'half' else full
        seqs = [src[(n * per + t) % len(src)] for t in range(per)]
        lo, hi = (-P.b, P.b) if kind == 'half' else (P.a, P.b)
        arrs = [labels(kind, P, mesh, rng, s) for s in seqs]
        # long arrays: many points per piece
        arrs += [sorted(lo + (hi - lo) * rng.random() for _ in range(40))]
        if kind != 'half':
            arrs.append([rng.choice(arrs[-1]) for _ in range(60)])
            arrs.append(sorted(arrs[-1], reverse=True))
        script = list(mk) + [ep]
        for x in arrs:
            t = '%d %s' % (len(x), ' '.join(hx(v) for v in x))
            script += ['evala f0 ' + t, 'eval f0 ' + t]
        L = hi - lo
        d = 1e-3 * L / (i0 + 3)
        cent = sorted(lo + (L - 2 * d) * rng.random() for _ in range(12))
        xs = [x for c in cent for x in (c, c + d)]
        for c in ('evala', 'eval'): script.append('%s f0 %d %s' % (c, len(xs), ' '.join(hx(v) for v in xs)) if kind != 'half' or sorted(xs) == xs or c == 'eval' else 'eval f0 %d %s' % (len(xs), ' '.join(hx(v) for v in xs)))

        def encode(ev, done, P=P, kind=kind, tol=tol, arrs=arrs, lo=lo, hi=hi, xs=xs, mesh=mesh, d=d, nmk=sum(not c.startswith('fn ') for c in mk)):
            e0 = need(ev[nmk])
            if not e0['v']: raise Bad('no eigenpair')
            k = nmk + 1
            ms = {float(t) for s in conv(mesh['s']) for t in s[:2]} if mesh else set()
            got = []
            for x in arrs:
                got.append((x, conv(need(ev[k])['y']), conv(need(ev[k + 1])['y'])))
                k += 2
            scale = [max([abs(frac(y[c])) for _, a_, p_ in got for v in (a_, p_) for y in v] + [Fraction(1, 10 ** 9)]) for c in (0, 1)]
            # constant solutions have no derivative
            scale[1] = max(scale[1], scale[0] / frac(hi - lo))
            teff = max(tol, 1e-7 * max(1., max(abs(float(frac(t[1]))) for t in conv(e0['v'])))) if kind == 'per' else tol
            mags = [max(abs(float(frac(y[c]) / scale[c])) for c in (0, 1)) for x, a_, _ in got for X_, y in zip(x, a_) if lo <= X_ <= hi]
            om = float(max(scale[1] / scale[0], 1))
            q = []
            for x, a_, p_ in got:
                if len(a_) != len(x) or len(p_) != len(x): raise Bad('length')
                row = []
                for X_, ya, yp in zip(x, a_, p_):
                    # in a mesh point the two pieces agree up to the tolerance, in the matching point up to the error of E
                    m = max(1e-6, min([1.] + [max(abs(float(frac(y[c]) / scale[c])) for c in (0, 1)) for y in (ya, yp)]))
                    on = abs(X_) in ms or X_ in ms
                    e = 300 * tol + 1e-9 + (1000 * teff / m if on else 0)
                    row.append(dict(out=not (lo <= X_ <= hi), ar=[enc(frac(ya[c]) / scale[c]) for c in (0, 1)],
                                    pt=[enc(frac(yp[c]) / scale[c]) for c in (0, 1)], e=enc(frac(min(e, 10.)))))
                q.append(row)
            hs = []
            for e in (ev[k], ev[k + 1]):
                y = conv(need(e)['y'])
                for t in range(0, len(xs), 2):
                    eps = frac(.03) * scale[1] + frac(1000 * teff) * scale[0] / frac(d)
                    if eps > scale[1]: continue
                    s = scale[1]
                    hs.append(dict(a=enc(frac(y[t][0]) / frac(d) / s), b=enc(frac(y[t + 1][0]) / frac(d) / s), d=enc((frac(y[t][1]) + frac(y[t + 1][1])) / 2 / s), e=enc(eps / s)))
            return [('RayTrace', dict(j='eval', runs=[], o=dict(q=q, h=hs)))]
        chk.add(script, encode, harness=h, desc=dict(kind=kind, problem=P.describe(), tol=tol, index=i0))
    chk.run()


fail_on_error(main)
