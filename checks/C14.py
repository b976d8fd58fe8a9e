import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain

I, A = (1., 0., 0., 1.), (-1., 0., 0., -1.)


def main():
    chk = Check('C14')
    rng = chk.rng
    windows = chk.behaviours('Bands')
    W = max(h for _, h in windows)
    N = 1200 if chk.thorough else 110
    kd = float(os.environ.get('DK', 1))
    plan = [P for P in fixed_problems()]
    while len(plan) < N: plan.append(random_problem(rng))
    for P in plan:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        K = rng.choice([I, I, A])
        base = rng.choice([0, 0, 0, 1, 2, 5, 8])
        vmin, vmax, L = P.vmin(), P.vmax(), P.b - P.a
        def growth(E): return sum(math.sqrt(max(0., P.V(P.a + L * (i + .5) / 200) - E)) for i in range(200)) * L / 200
        if growth(vmin) > 17: continue    # the determinant of the matching error cancels (see DESIGN.md, limits)
        s = max(1., (math.pi / L) ** 2)
        ws = [(base + a, base + b) for a, b in windows]
        ws = [(base, base + W)] + rng.sample(ws, 12)
        wins = [(vmin - 30 * s, vmin - s), (vmin - 10, vmin - 10)]
        for _ in range(6):
            a = vmin + rng.uniform(-1, 30) * s
            wins.append((a, a + rng.choice([0, .1, 1, 5, 20]) * s * rng.random()))
        wins = [w for w in wins if growth(w[0]) < 17]
        script = [P.fn(), 'per o V %s %s %s %s %s' % (P.a.hex(), P.b.hex(), tol.hex(), P.builder(), ' '.join(hx(t) for t in K))]
        for j, (a, b) in enumerate(ws): script.append(rng.choice(['evi', 'evi', 'ep f%d_' % j]) + ' o %d %d' % (a, b))
        for j, (a, b) in enumerate(wins): script.append(rng.choice(['ev', 'ev', 'epE h%d_' % j]) + ' o %s %s' % (hx(a), hx(b)))

        def encode(ev, done, P=P, tol=tol, K=K, ws=ws, wins=wins, L=L, vmin=vmin):
            need(ev[0])
            V = [[(t[0], t[1], t[2]) for t in conv(need(e)['v'])] for e in ev[1:]]
            qi = [(a, b, v) for (a, b), v in zip(ws, V)]
            allE = [float(E) for v in V for _, E, _ in v] + [t for w in wins for t in w]
            ch = chk.chain(Chain(P.V, [P.a, P.b], max(allE) + 1, min(allE) - 1))
            def acc(v, j):
                E = float(v[j][1])
                gaps = [abs(E - float(v[i][1])) for i in (j - 1, j + 1) if 0 <= i < len(v)] if v[j][2] == 1 and len(v) > 1 else []
                return kd * accuracy(tol, E, L, min(gaps) if len(gaps) == 2 else None, vmin)
            rows = []
            for v in [V[0]] + rng.sample(V[1:len(ws)], 3) + V[len(ws):]:
                for j, (i, E, m) in enumerate(v):
                    if v is not V[0] and rng.random() < .5: continue
                    d = frac(acc(v, j))
                    rows += [('below', E - d, 0, i), ('above', E + d, i + m, 10 ** 6)]
            for (a, b), v in zip(wins, V[len(ws):]):
                da, db = frac(accuracy(tol, a, L, None, vmin)) * frac(kd), frac(accuracy(tol, b, L, None, vmin)) * frac(kd)
                for j, (i, E, m) in enumerate(v):
                    if not frac(a) - da <= E <= frac(b) + db: raise Bad('outside of the interval')
                    if j and v[j - 1][0] + v[j - 1][2] != i: raise Bad('indices %s' % [t[0] for t in v])
                if v:
                    first, last = v[0][0], v[-1][0] + v[-1][2]
                    # nothing is missing: at most first eigenvalues below a + d, all of last found before b - d
                    rows += [('first', frac(a) + da, first, 10 ** 6), ('first', frac(a) - da, 0, first), ('last', frac(b) - db, 0, last), ('last', frac(b) + db, last, 10 ** 6)]
                    # eigenvalues between a + d and the first entry would be missing
                else: rows.append(('empty', frac(b) - db, 0, -1, frac(a) + da))
            plain = [r for r in rows if len(r) == 4]
            out = [('RayTrace', bands_case(qi, kd * accuracy(tol, max(allE), L, None, vmin)))]
            out.append(('RayTrace', coupled_case(ch, K, plain)))
            for r in rows:
                if len(r) == 5 and r[1] > r[4]: out.append(('RayTrace', coupled_case(ch, K, [('empty', r[1], 0, 0), ('empty', r[4], 0, 0)]) | dict(j='same')))
            return out
        chk.add(script, encode, harness='per', desc=dict(problem=P.describe(), K=K, tol=tol, base=base, windows=wins))
    chk.run()


fail_on_error(main)
