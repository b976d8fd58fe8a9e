import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain


def main():
    chk = Check('C07')
    rng = chk.rng
    N = 4000 if chk.thorough else 500
    plan = []
    for P in fixed_problems():
        for l, r in [((0., 1.), (0., 1.)), ((1., 0.), (0., 1.)), (random_bc(rng), random_bc(rng))]:
            plan.append((P, l, r))
    # nearly coinciding pairs
    for _ in range(N // 8):
        r = random_bc(rng)
        plan.append((random_doublet(rng), (r[0], -r[1]) if rng.random() < .7 else random_bc(rng), r))
    while len(plan) < N:
        plan.append((random_problem(rng), random_bc(rng), random_bc(rng)))
    # high indices
    high = N // 60
    for _ in range(high): plan.append((random_problem(rng), random_bc(rng), random_bc(rng)))
    for q, (P, l, r) in enumerate(plan):
        tol = rng.choice([1e-6, 1e-8, 1e-9])
        i0 = rng.choice([0, 0, 0, 1, 2, 3, 5, 8, 13])
        if q >= len(plan) - high: i0 = rng.choice([50, 99, 100, 254, 255, 511, 700, 998, 999, 1000, 1022, 2047])
        m = rng.choice([1, 2, 3])
        script = [P.fn(), P.ms('o', tol), 'evi o %d %d %s %s' % (i0, i0 + m, bc_txt(l), bc_txt(r))]

        def encode(ev, done, P=P, l=l, r=r, tol=tol, i0=i0, m=m):
            v = conv(need(ev[-1], 'evi')['v'])
            if len(v) != m: raise Bad('wrong number of eigenvalues')
            Emax = float(max(e for _, e in v)) + 1
            ch = chk.chain(Chain(P.V, [P.a, P.b], Emax, float(v[0][1])))
            out = []
            for n, E in v:
                d = delta(tol, float(E), ch)
                if P.name.startswith('doublet'): d = max(d, 2e-9 * float(ch.om) ** 2)    # see pair_slack
                out.append(('RayTrace', eig_case(ch, l, r, n, E, d)))
            return out
        chk.add(script, encode, desc=dict(problem=P.describe(), left=l, right=r, tol=tol, indices=[i0, i0 + m]))
    chk.run()


fail_on_error(main)
