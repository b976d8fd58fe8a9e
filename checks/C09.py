import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain


def main():
    chk = Check('C09')
    rng = chk.rng
    chk.model('Search')
    N = 2500 if chk.thorough else 260
    plan = []
    for P in fixed_problems():
        plan.append(('ms', P))
        if P.even: plan.append(('half', P))
    while len(plan) < N:
        if rng.random() < .65: plan.append(('ms', random_problem(rng)))
        else: plan.append(('half', random_problem(rng, even=True)))
    # high indices
    for _ in range(N // 30): plan.append(('high', random_problem(rng)))
    # known finding: solutions overflow at the lower end of the interval
    vs = [-1.58, -1.19, .448]
    F = Prob('overflow', Piecewise([C(v) for v in vs + [1.87] + vs[::-1]], [-2.97, -2.62, -.513, .513, 2.62, 2.97]), -5, 5)
    plan.append(('overflow', F))
    # first pass: eigenvalues of every problem, to place the ends of the windows around them
    meta = []
    for kind, P in plan:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        l, r = random_bc(rng), random_bc(rng)
        if kind == 'overflow': kind, tol, l, r = 'ms', 1e-9, (0., 1.), (0., 1.)
        if kind == 'half': l = r
        base = rng.choice([0, 0, 0, 3, 9])
        if kind == 'high':
            kind, base = 'ms', rng.choice([49, 98, 126, 253, 510, 509, 997, 998, 999, 1022, 1500])
            if P.even and rng.random() < .5: kind, l = 'half', r
        mk = [P.fn(), P.ms('o', tol) if kind == 'ms' else P.half('o', tol)]
        meta.append((kind, P, tol, l, r, base, mk))
    probe = [Group('p%d' % n, m[6] + ['evi o %d %d %s %s' % (m[5], m[5] + 4, bc_txt(m[3]), bc_txt(m[4]))], None) for n, m in enumerate(meta)]
    rec = chk.execute(probe)
    for n, (kind, P, tol, l, r, base, mk) in enumerate(meta):
        ev, done = rec['p%d' % n]
        try:
            E = [float(e) for _, e in conv(need(ev[-1], 'evi')['v'])]
        except (Bad, NonFinite, IndexError, KeyError):
            E = []
        if len(E) < 4: E = [P.vmin(), P.vmax(), P.vmax() + 1, P.vmax() + 7]
        g = max(1e-3, (E[-1] - E[0]) / 3)
        below = P.vmin() - 5 - 10 * abs(l[1] / l[0] if l[0] else 0) ** 2 - 10 * abs(r[1] / r[0] if r[0] else 0) ** 2
        # growth that double precision can represent (see DESIGN.md, limits)
        rep = P.vmax() - (560 / (P.b - P.a)) ** 2
        if E[0] > rep: below = max(below, rep + 10)
        mid = lambda i: (E[i] + E[i + 1]) / 2
        wins = [(below - 10, below), (below - 10, E[0] - .1 * g), (below, mid(1)), (mid(0), mid(2)), (mid(1), mid(1) + 1e-6),
                (E[1] + rng.choice([-1e-3, 1e-3, -1e-2, 1e-2]) * g, E[2] + rng.choice([-1e-3, 1e-3, -1e-2]) * g), (E[1], E[3]), (mid(0), mid(0)),
                (E[0] - rng.random() * g, E[0] + rng.random() * 3 * g), (rng.uniform(E[0], E[3]), E[3] + rng.random() * 5 * g), (mid(1), E[3] + rng.random() * 2 * g)]
        if base > 9: wins = [wins[3], rng.choice(wins[5:8] + wins[9:])]
        if P.name == 'overflow': wins, rep = [(-8000., 5.)], -1e9
        wins = [w for w in wins if rep <= w[0] <= w[1]]
        script = list(mk)
        for a, b in wins:
            one = l == r and rng.random() < .4
            script.append('ev%s o %s %s %s%s' % ('1' if one else '', hx(a), hx(b), bc_txt(l), '' if one else ' ' + bc_txt(r)))

        def encode(ev, done, kind=kind, P=P, l=l, r=r, tol=tol, wins=wins):
            need(ev[0])
            top = max(b for _, b in wins)
            ch = chk.chain(Chain(P.V, [P.a, P.b], top + 1, min(a for a, _ in wins) - 1))
            if kind == 'half': l = (r[0], -r[1])
            out = []
            for (a, b), e in zip(wins, ev[1:]):
                v = conv(need(e)['v'])
                first = v[0][0] if v else 0
                if [i for i, _ in v] != list(range(first, first + len(v))): raise Bad('indices %s' % [i for i, _ in v])
                d = lambda x: delta(tol, x, ch)
                out.append(('RayTrace', window_case(ch, l, r, a, b, d(a), d(b), first, len(v))))
                near_ = []
                for k, (i, E) in enumerate(v):
                    if not a - d(a) <= E <= b + d(b): raise Bad('outside of the interval')
                    if k and v[k - 1][1] > E + d(float(E)): raise Bad('not increasing')
                for i, E in (rng.sample(v, 2) if len(v) > 2 else v):
                    out.append(('RayTrace', eig_case(ch, l, r, i, E, d(float(E)))))
            return out
        chk.add(script, encode, desc=dict(kind=kind, problem=P.describe(), left=l, right=r, tol=tol, windows=wins))
    chk.run()


fail_on_error(main)
