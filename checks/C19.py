import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from csys import *
from cases import need, near


def main():
    chk = Check('C19', harness_default='cs')
    rng = chk.rng
    N = 1200 if chk.thorough else 170
    K, KP = float(os.environ.get('DK', 30)), float(os.environ.get('DP', 20))
    for q in range(N):
        n = rng.choice([1, 2, 2, 2, 3] + ([4] if chk.thorough else []))
        kind = rng.choice(['general', 'general', 'general', 'diagonal', 'swapped'])
        S = random_system(rng, n, diagonal=kind != 'general')
        tol = rng.choice([1e-5, 1e-6, 1e-8])
        script = S.lines() + [S.cs('o', tol), 'sectors o']
        qs = []
        for _ in range(3):
            E = energy(rng, S, lo=-10, hi=1000)
            y = lagrangian(rng, n, kind == 'diagonal')
            a, b = positions(rng, S), positions(rng, S)
            qs.append(('angle', E, y))
            script.append('prop o %s %s %s %s 1' % (hx(E), ytxt(y), a, b))
            # the same solution the other way around and in two parts
            qs.append(('parts', E, y))
            script.append('walk o %s %s 2 %s %s %s' % (hx(E), ytxt(y), a, positions(rng, S), b))
        for _ in range(4):
            E = energy(rng, S)
            A = [[r3(rng.uniform(-2, 2)) for _ in range(n)] for _ in range(n)]
            if rng.random() < .7: A = [[r3(A[i][j] + A[j][i]) for j in range(n)] for i in range(n)]
            if rng.random() < .2: A = [[0.] * n] * n
            qs.append(('psi', E, A))
            script.append('psi o %s %s %s %s' % (hx(E), ' '.join(hx(A[i][j]) for j in range(n) for i in range(n)), positions(rng, S), positions(rng, S)))

        def encode(ev, done, S=S, n=n, tol=tol, qs=qs):
            if done['stray']: raise Bad('output: ' + done['stray'][:60])
            need(ev[0], 'cs')
            sec = conv(need(ev[1], 'sectors')['s'])
            out = []
            for e, (kind, E, y) in zip(ev[2:], qs):
                need(e)
                x = conv(e['x']) if kind == 'parts' else conv(e['ab'])
                amp = detour(S, E, sec, x)
                if kind == 'psi':
                    P = conv(e['P'])
                    c = ratio_case(chk, S, CChain(S, x, E), E, y, [[P[j][i] for j in range(n)] for i in range(n)], tol, KP, amp)
                else:
                    # the angle of a walk is the angle between its ends, however it wanders in between
                    if kind == 'parts':
                        far = CChain(S, [x[0], x[1]], E), CChain(S, [x[1], x[2]], E)
                        for f in far: amp *= condition(S, f, float(E))[0]
                        if amp > 1e8: continue
                    c = angle_case(chk, S, CChain(S, [x[0], x[-1]], E, hk=1.2 / n, ommax=1.2 / n), E, y, conv(e['th']), tol, K, amp)
                if c: out.append(c)
            return out
        chk.add(script, encode, harness='cs', desc=dict(problem=S.describe(), tol=tol, queries=[s[:12] + ' ... ' + s[-80:] for s in script if s.split()[0] in ('prop', 'walk', 'psi')]))
    chk.run()


fail_on_error(main)
