import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from propplan import *


def main():
    chk = Check('C06')
    rng = chk.rng
    N = 2500 if chk.thorough else 300
    plan = fixed_problems()
    while len(plan) < N: plan.append(random_problem(rng))
    add_props(chk, plan, value=False, angle=True)
    # matching angles: increasing in E, rounded up they are the number of eigenvalues below E
    M = 1500 if chk.thorough else 200
    for P in (fixed_problems() + [random_problem(rng) for _ in range(M)])[:M]:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        l, r = random_bc(rng), random_bc(rng)
        lo, hi, L = P.vmin(), P.vmax(), P.b - P.a
        Es = sorted({r3(lo - rng.random() * 20 / L), r3(lo + rng.random() * (hi - lo)), r3(lo + rng.random() * (hi - lo)), r3(hi + 10 ** rng.uniform(-2, 2.7) / L ** 2 * 3), r3(hi + 10 ** rng.uniform(2, 3.5) / L ** 2)})
        script = [P.fn(), P.ms('o', tol)] + ['merr o %s %s %s' % (hx(E), bc_txt(l), bc_txt(r)) for E in Es]

        def encode(ev, done, P=P, tol=tol, l=l, r=r, Es=Es):
            th = [conv(need(e, 'merr')['m'])[2] if not isinstance(e['m'][2], float) else frac(e['m'][2]) for e in ev[1:]]
            ch = chk.chain(Chain(P.V, [P.a, P.b], Es[-1], Es[0]))
            ru, rv = direction(ch, *r)
            runs = []
            for E in Es:
                d = delta(tol, E, ch)
                runs += count_runs(ch, l, [frac(E) - frac(d), frac(E) + frac(d)])
            return [('RayTrace', dict(j='match', runs=runs, o=dict(th=[enc(over_pi(t)) for t in th], ru=ru, rv=rv, slack=enc(frac(1e-4)))))]
        chk.add(script, encode, desc=dict(problem=P.describe(), tol=tol, left=l, right=r, E=Es))
    chk.run()


fail_on_error(main)
