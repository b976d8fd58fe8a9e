import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from propplan import *

DK = float(os.environ.get('DKH', 20))
KP = float(os.environ.get('DKP', 30))
KI = float(os.environ.get('DKI', 300))
KN = float(os.environ.get('DKN', 100))
EPS = dict(double=2. ** -52, long=2. ** -63, quad=2. ** -112)


def half_dirs(par):
    return (1., 0.) if par == 0 else (0., 1.)


def eigs(chk, P, half, l, r, tol, ev, F, mod, d):
    """the recorded (index, energy) pairs against the ray machine"""
    out = []
    v = conv(ev['v'])
    for i, E in v:
        ch = chk.chain(Chain(P.V, [P.a, P.b], float(E), F=F))
        out.append((mod, eig_case(ch, l, r, i, E, d(E, ch))))
    return out


def prop_hi(chk, P, sec, e, y, tol, eps):
    E = hexnum(e['E'])
    a, b = conv(e['ab'])
    Y = conv(e['Y'])
    if max(0., P.vmax() - float(E)) ** .5 * (P.b - P.a) * 3 > 650 or a == b: return None
    ch = chk.chain(Chain(P.V, [a, b], float(E), F=8))
    kap, L = condition(ch, P.V, float(E))
    kap *= detour(P.V, float(E), sec, [a, b])
    (u, v), e0 = scaled([frac(y[0]), ch.v(y[1])], 8)
    mesh = {s[0] for s in sec} | {s[1] for s in sec}
    inner = a not in mesh or b not in mesh
    err = ((KI if inner else KP) * tol + 1000 * eps * (L + 1)) * kap
    if kap > 1e20 or err > 1e-6: return None
    obs = [t / Fraction(10) ** e0 for t in (frac(Y[0]), ch.v(Y[1]))]
    ex = max([expo(t) for t in obs if t] or [0])
    sc = Fraction(10) ** (-ex)
    return dict(j='prop', runs=[dict(p=ch.pid, i0=0, i1=len(ch.steps), u=u, v=v, d=False, g=ch.g(E))],
                o=dict(y=[[enc(t * sc, 8) for t in obs]], ex=[ex], eps=[enc(frac(err) * sc, 8)]))


def main():
    chk = Check('C22', harness_default='prec')
    rng = chk.rng
    # the same problem in each precision at the same tolerance
    N = 600 if chk.thorough else 60
    plan = fixed_problems()
    while len(plan) < N: plan.append(random_problem(rng))
    for P in plan[:N]:
        half = P.even and rng.random() < .4
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        l, r = random_bc(rng), random_bc(rng)
        if half: l = (r[0], -r[1])
        base = rng.choice([0, 0, 1, 5, 15])
        qs = []
        if not half:
            for _ in range(3):
                y = random_y(rng, False)
                qs.append((y, 'prop o %s %s %s %s 1' % (energy(rng, P), ' '.join(hx(t) for t in y), pos(rng, P), pos(rng, P))))
        for scalar in ('double', 'long', 'quad'):
            script = (['scalar ' + scalar] if scalar != 'double' else []) + [P.fn(), P.half('o', tol) if half else P.ms('o', tol), 'sectors o',
                      'evi1 o %d %d %s' % (base, base + 3, bc_txt(r)) if half else 'evi o %d %d %s %s' % (base, base + 3, bc_txt(l), bc_txt(r))] + [q for _, q in qs]

            def encode(ev, done, P=P, l=l, r=r, tol=tol, half=half, base=base, qs=qs):
                for e in ev: need(e)
                if [t[0] for t in ev[2]['v']] != [base, base + 1, base + 2]: raise Bad('indices %s' % ev[2]['v'])
                out = eigs(chk, P, half, l, r, tol, ev[2], 4, 'RayTrace', lambda E, ch: delta(tol, E, ch))
                sec = conv(ev[1]['s'])
                for e, (y, _) in zip(ev[3:], qs):
                    E = hexnum(e['E'])
                    if max(0., P.vmax() - float(E)) ** .5 * (P.b - P.a) * 3 > 650: continue
                    a, b = conv(e['ab'])
                    ch = chk.chain(Chain(P.V, [a, b], float(E)))
                    pc = prop_case(ch, P.V, E, y, conv(e['Y']), conv(e['th']), tol, amp=detour(P.V, float(E), sec, [a, b]))
                    if pc: out.append(('RayTrace', pc))
                return out
            chk.add(script, encode, timeout=60, desc=dict(scalar=scalar, problem=P.describe(), half=half, tol=tol, left=l, right=r, base=base))
    # tolerances beyond double precision
    N = 600 if chk.thorough else 80
    plan = fixed_problems()
    while len(plan) < N: plan.append(random_problem(rng, even=True) if rng.random() < .4 else random_problem(rng))
    for P in plan[:N]:
        half = P.even and rng.random() < .6
        scalar = rng.choice(['long', 'quad', 'quad'])
        tol = rng.choice([1e-14, 1e-15]) if scalar == 'long' else rng.choice([1e-16, 1e-18, 1e-20, 1e-22])
        l, r = random_bc(rng), random_bc(rng)
        if half: l = (r[0], -r[1])
        base = rng.choice([0, 0, 1, 5, 15])
        ys = [random_y(rng, False) for _ in range(0 if half else 2)]
        script = ['scalar ' + scalar, P.fn(), P.half('o', tol) if half else P.ms('o', tol), 'sectors o',
                  'evi1 o %d %d %s' % (base, base + 3, bc_txt(r)) if half else 'evi o %d %d %s %s' % (base, base + 3, bc_txt(l), bc_txt(r))] + [
                  'prop o %s %s %s %s 1' % (energy(rng, P), ' '.join(hx(t) for t in y), pos(rng, P), pos(rng, P)) for y in ys]

        # an eigenfunction with all digits, at points with at most one zero between neighbours
        pts = sample_points(P.V, P.a, P.b, P.vmax() + ((base + 4) * 3.2 / (P.b - P.a)) ** 2, rng, limit=40) if base < 5 else None
        if pts is not None and not resolved(P.V, P.a, P.b, l, r, base, 1e-9): pts = None
        if pts is not None:
            script += ['ep1 f o %d %d %s' % (base, base + 1, bc_txt(r)) if half else 'ep f o %d %d %s %s' % (base, base + 1, bc_txt(l), bc_txt(r)),
                       'evala f0 %d %s' % (len(pts), ' '.join(hx(x) for x in pts))]

        def encode(ev, done, P=P, l=l, r=r, tol=tol, half=half, base=base, scalar=scalar, ys=ys, pts=pts):
            for e in ev: need(e)
            eps = EPS[scalar]
            if [t[0] for t in ev[2]['v']] != [base, base + 1, base + 2]: raise Bad('indices %s' % ev[2]['v'])
            sec = conv(ev[1]['s'])
            ps = [prop_hi(chk, P, sec, e, y, tol, EPS[scalar]) for e, y in zip(ev[3:3 + len(ys)], ys)]
            out = []
            if pts is not None:
                E, Es, f = conv(ev[2]['v'])[0][1], conv(ev[-2]['v']), conv(ev[-1]['y'])
                if [i for i, _ in Es] != [base]: raise Bad('indices of eigenpairs')
                dE = max(DK * tol, 1000 * eps * (1 + abs(float(E))))
                out.append(('RayHiTrace', eigf_case(P.V, pts, f, Es[0][1], base, l, r, tol, K=KI, KN=KN, maxbad=2 if half else 1, sectors=sec, chk=chk, dE=dE,
                                                    F=8, rnd=(1e4 * eps + 1e-27, 10 * eps, 1e5 * eps, 1e6 * eps))))
            return out + [('RayHiTrace', p) for p in ps if p] + eigs(chk, P, half, l, r, tol, ev[2], 8, 'RayHiTrace', lambda E, ch: max(DK * tol, 1000 * EPS[scalar] * (1 + abs(float(E))), 100 * EPS[scalar] * float(ch.om) ** 2))
        chk.add(script, encode, timeout=100, desc=dict(scalar=scalar, problem=P.describe(), half=half, tol=tol, left=l, right=r, base=base))
    chk.run()


fail_on_error(main)
