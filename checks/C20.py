import os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain

RES = float(os.environ.get('RES', 30))
KE = float(os.environ.get('DKE', 10))
KS = float(os.environ.get('DK', 1))


def coarse(P, n):
    """does a mesh of n equal sectors leave the potential unresolved?  (variation over a sector, relative to its width, and
    the size of its Chebyshev coefficients from the degree of the method on)"""
    import numpy as np
    h = (P.b - P.a) / n
    for k in range(n):
        v = [P.V(P.a + (k + t / 24) * h) for t in range(25)]
        if h * h * (max(v) - min(v)) > RES: return True
        c = np.polynomial.chebyshev.chebinterpolate(lambda t: np.array([P.V(P.a + (k + (x + 1) / 2) * h) for x in t]), 40)
        if h * h * np.sum(np.abs(c[14:])) > 1e-9: return True
    return False


def main():
    chk = Check('C20')
    rng = chk.rng
    N = 3000 if chk.thorough else 400
    plan = []
    for P in fixed_problems():
        plan.append(('ms', P))
        if P.even: plan.append(('half', P))
    for S in fixed_sl(): plan.append(('sl', S))
    while len(plan) < N:
        k = rng.random()
        if k < .55: plan.append(('ms', random_problem(rng)))
        elif k < .8: plan.append(('half', random_problem(rng, even=True)))
        else: plan.append(('sl', random_sl(rng)))
    for _ in range(N // 10):
        P = random_doublet(rng)
        plan.append((rng.choice(['ms', 'half']), P))
    meta, probe = [], []
    for kind, P in plan:
        tol = rng.choice([1e-4, 1e-5, 1e-6, 1e-8])
        l, r = random_bc(rng), random_bc(rng)
        n = 0
        bt = None
        if kind != 'sl' and not P.jumps and rng.random() < .5:
            n = rng.choice([2, 3, 4, 5, 6, 8, 11, 16])
            if kind == 'half': n += n % 2    # the mesh of half of the domain
            bt = 'uni %d' % (n // 2 if kind == 'half' else n)
            if n // (2 if kind == 'half' else 1) < 2 or coarse(P, n): n, bt = 0, None
        base = rng.choice([0, 0, 1, 2, 4, 8, 15])
        if kind == 'ms': pre = [P.fn(), P.ms('o', tol, builder=bt)]
        elif kind == 'half': pre = [P.fn(), P.half('o', tol, builder=bt)]
        else: pre = P.fns() + [P.sl('o', tol)]
        if kind == 'half': l = (r[0], -r[1])
        B = bc_txt(r) if kind == 'half' else bc_txt(l) + ' ' + bc_txt(r)
        one = '1' if kind == 'half' else ''
        meta.append((kind, P, tol, l, r, n, base, pre, B, one))
        probe.append(Group('p%d' % len(probe), pre + ['evi%s o %d %d %s' % (one, base, base + 3, B)], None, harness='sl' if kind == 'sl' else 'core'))
    rec = chk.execute(probe)
    for g, (kind, P, tol, l, r, n, base, pre, B, one) in zip(probe, meta):
        try: v = conv(need(rec[g.id][0][-1])['v'])
        except (Bad, NonFinite, IndexError, KeyError): continue
        script = list(pre)
        for i, E in v:
            script.append('eve%s o %s %s %d' % (one, hx(E), B, i))
        Es = [E for _, E in v]
        gap = min(abs(x - y) for x, y in zip(Es, Es[1:])) if len(Es) > 1 else 0
        # without the index
        if kind == 'half': script += ['eve1 o %s %s -1' % (hx(E), B) for E in Es]
        def encode(ev, done, kind=kind, P=P, tol=tol, l=l, r=r, v=v, n=n, gap=gap):
            if [i for i, _ in v] != list(range(v[0][0], v[0][0] + 3)): raise Bad('indices')
            if kind == 'half': ev, by = ev[:-3], ev[-3:]
            out, ps = [], []
            errs = [conv(need(e)['err']) for e in ev[-len(v):]]
            for (i, E), e in zip(v, ev[-len(v):]):
                err = conv(need(e)['err'])
                if kind == 'sl':
                    ch = chk.chain(Chain(P.q, [P.a, P.b], float(E), p=P.p, w=P.w))
                    dl, dr = P.dirs(l, r)
                else:
                    ch = chk.chain(Chain(P.V, [P.a, P.b], float(E)))
                    dl, dr = l, r
                if err < 0: raise Bad('negative estimate')
                slack = KS * max(2 * tol, 1e-11 * (1 + abs(float(E))), 1e-12 * float(ch.om) ** 2)
                if P.name.startswith('doublet'): slack = max(slack, 2e-9 * float(ch.om) ** 2)    # see pair_slack
                out.append(('RayTrace', eig_case(ch, dl, dr, i, E, (KE * max(map(float, errs)) if n else float(err)) + slack)))
                if not n: ps.append(near('small', err, 0, 100 * tol + slack))
                if kind == 'half' and gap > 1e-3 * (1 + abs(E)):
                    e2 = conv(need(by[i - v[0][0]])['err'])
                    ps.append(near('parity', e2, err, slack))
            if ps: out.append(('RayTrace', dict(j='near', runs=[], o=dict(p=ps))))
            return out
        chk.add(script, encode, harness=g.harness, desc=dict(kind=kind, problem=P.describe(), left=l, right=r, tol=tol, uniform=n, base=base))
    chk.run()


fail_on_error(main)
