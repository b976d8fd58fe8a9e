import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from meshes import *
from propplan import *
from cases import *


def main():
    chk = Check('C02')
    rng = chk.rng
    lists = chk.behaviours('Mesh')   # every list of up to 3 declared positions over -1..6
    rng.shuffle(lists)
    N = 6000 if chk.thorough else 900
    # meshes
    for q in range(N):
        kind = rng.choice(['ms', 'ms', 'ms', 'half', 'per', 'cs'])
        P = wild_problem(rng, kind == 'half') if rng.random() < .5 else random_problem(rng, even=kind == 'half')
        if kind == 'half' and not P.even: kind = 'ms'
        tol = 10 ** rng.uniform(-9, -2)
        if kind == 'cs' and P.b - P.a > 12: kind = 'ms'
        lo, hi = (0., P.b) if kind == 'half' else (P.a, P.b)
        D = Prob('d', C(0), lo, hi)
        j = declared_list(lists[q % len(lists)], 5, D, rng, close=rng.random() < .15)
        if rng.random() < .25: j += declared_list(rng.choice(lists), 5, D, rng)
        if rng.random() < .3: j += [-x for x in j]
        rng.shuffle(j)
        real = [x for x in P.jumps]
        script = [P.fn()]
        bt = jump_txt(j + real)
        if kind == 'ms': script.append(P.ms('o', tol, builder=bt))
        elif kind == 'half': script.append(P.half('o', tol, builder=bt))
        elif kind == 'per': script.append('per o V %s %s %s %s 1 0 0 1' % (hx(P.a), hx(P.b), hx(tol), bt))
        else:
            m = rng.choice([1, 2])
            lines, names = coupled(rng, P, m)
            script = lines + [cs_line('o', m, names, P, tol, bt)]
        script.append('sectors o')

        def encode(ev, done, lo=lo, hi=hi, j=j + real):
            need(ev[0])
            return mesh_case(ev[-1], lo, hi, j)
        chk.add(script, encode, harness=dict(per='per', cs='cs').get(kind, 'core'), timeout=60, desc=dict(kind=kind, problem=P.describe(), tol=tol, declared=j + real))
    # accuracy of solutions across declared discontinuities
    plan = []
    while len(plan) < (1500 if chk.thorough else 260):
        P = random_problem(rng, jumps=True)
        if not P.jumps: continue
        extra = declared_list(rng.choice(lists), 5, P, rng)
        j = P.jumps + extra + ([rng.choice(P.jumps)] if rng.random() < .5 else [])
        rng.shuffle(j)
        P.builder = lambda j=j: jump_txt(j)
        plan.append(P)
    add_props(chk, plan, value=True, angle=True, per=4)
    chk.run()


fail_on_error(main)
