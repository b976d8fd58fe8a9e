import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from meshes import *


def main():
    chk = Check('C01')
    rng = chk.rng
    chk.model('Mesh')
    N = 8000 if chk.thorough else 1100
    # uniform meshes of all sizes on domains with rounded ends
    for q in range(N // 3):
        e = float('%.3g' % (10 ** rng.uniform(-2, 3)))
        kind = rng.choice(['ms', 'half', 'per'])
        P = Prob('const', C(rng.choice([0., 1.5])), -e if kind == 'half' else rng.choice([0., -e, float('%.3g' % (e * rng.uniform(-3, .9)))]), e, kind == 'half')
        n = rng.choice([rng.randrange(1, 20), rng.randrange(1, 200)])
        mk = dict(ms=lambda: P.ms('o', 1e-6, builder='uni %d' % n), half=lambda: P.half('o', 1e-6, builder='uni %d' % n), per=lambda: 'per o V %s %s %s uni %d 1 0 0 1' % (hx(P.a), hx(P.b), hx(1e-6), n))[kind]()
        chk.add([P.fn(), mk, 'sectors o'], lambda ev, done, lo=0. if kind == 'half' else P.a, hi=P.b, n=n: (need(ev[0]), mesh_case(ev[-1], lo, hi, [], n))[1],
                harness='per' if kind == 'per' else 'core', timeout=60, desc=dict(kind=kind, domain=[P.a, P.b], uniform=n))
    for q in range(N):
        kind = rng.choice(['ms', 'ms', 'half', 'per', 'cs'])
        P = wild_problem(rng, kind == 'half') if rng.random() < .6 else random_problem(rng, even=kind == 'half')
        if kind == 'half' and not P.even: kind = 'ms'
        tol = 10 ** rng.uniform(-13, -2)
        if kind == 'cs' or P.name in ('wild', 'spike', 'steep', 'large', 'osc'): tol = max(tol, 1e-9)
        if kind == 'cs' and P.b - P.a > 12: kind = 'ms'
        n = rng.choice([1, 2, 3, 4, 5, 8, 17, 60]) if rng.random() < .35 else 0
        lo, hi = (0., P.b) if kind == 'half' else (P.a, P.b)
        j = []
        if not n and rng.random() < .4: j = [x for x in P.jumps if lo < x < hi]
        bt = 'uni %d' % n if n else jump_txt(j) if j else 'auto'
        script = [P.fn()]
        if kind == 'ms':
            # also the constructors without a builder
            if not n and not j and rng.random() < .3: script.append('msauto o V %s %s %s' % (hx(P.a), hx(P.b), hx(tol)))
            else: script.append(P.ms('o', tol, builder=bt))
        elif kind == 'half': script.append(P.half('o', tol, builder=bt))
        elif kind == 'per': script.append('per o V %s %s %s %s 1 0 0 1' % (hx(P.a), hx(P.b), hx(tol), bt))
        else:
            m = rng.choice([1, 2, 3])
            lines, names = coupled(rng, P, m)
            script = lines + [cs_line('o', m, names, P, tol, bt)]
        script.append('sectors o')

        def encode(ev, done, lo=lo, hi=hi, j=j, n=n):
            need(ev[0])
            return mesh_case(ev[-1], lo, hi, j, n)
        chk.add(script, encode, harness=dict(per='per', cs='cs').get(kind, 'core'), timeout=60, desc=dict(kind=kind, problem=P.describe(), tol=tol, builder=bt[:60]))
    chk.run()


fail_on_error(main)
