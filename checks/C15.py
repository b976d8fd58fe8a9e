import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain

I, A = (1., 0., 0., 1.), (-1., 0., 0., -1.)


def main():
    chk = Check('C15')
    rng = chk.rng
    N = 1000 if chk.thorough else 130
    plan = [(P, rng.choice([I, A])) for P in fixed_problems()] + [(P, K) for P in fixed_problems()[:6] for K in (I, A)]
    while len(plan) < N: plan.append((random_problem(rng), rng.choice([I, A])))
    probe, meta = [], []
    for n, (P, K) in enumerate(plan):
        tol = rng.choice([1e-6, 1e-7, 1e-8, 1e-9])
        i0 = rng.choice([0, 0, 1, 2, 4, 7])
        vmin, L = P.vmin(), P.b - P.a
        def growth(E): return sum(math.sqrt(max(0., P.V(P.a + L * (i + .5) / 200) - E)) for i in range(200)) * L / 200
        if growth(vmin) > 10: continue
        mk = [P.fn(), 'per o V %s %s %s %s %s' % (P.a.hex(), P.b.hex(), tol.hex(), P.builder(), ' '.join(hx(t) for t in K))]
        meta.append((P, K, tol, i0, mk))
        probe.append(Group('p%d' % len(probe), mk + ['evi o %d %d' % (i0, i0 + 3), 'evi o %d %d' % (max(0, i0 - 2), i0 + 6)], None, harness='per'))
    rec = chk.execute(probe)
    for g, (P, K, tol, i0, mk) in zip(probe, meta):
        ev, done = rec[g.id]
        try:
            v = [(i, float(E), m) for i, E, m in conv(need(ev[-2], 'evi')['v'])]
            every = [(i, float(E)) for i, E, m in conv(need(ev[-1], 'evi')['v'])]
        except (Bad, NonFinite, IndexError): v = []
        if not v:
            chk.add(g.script, lambda ev, done: (_ for _ in ()).throw(Bad('eigenvalues')), harness='per', desc=dict(problem=P.describe()))
            continue
        pts = sample_points(P.V, P.a, P.b, max(E for _, E, _ in v), rng)
        if pts is None: continue
        script = list(mk)
        pl = '%d %s' % (len(pts), ' '.join(hx(x) for x in pts))
        mults = [m for _, _, m in v]
        byE = rng.random() < .4
        if byE:
            d = 1e-3 * max(1., abs(v[0][1]))
            script.append('epE f o %s %s' % (hx(v[0][1] - d), hx(v[-1][1] + d)))
        else: script.append('ep f o %d %d' % (i0, i0 + 3))
        k = 0
        for m in mults:
            for _ in range(m):
                script.append('%s f%d %s' % (rng.choice(['eval', 'evala']), k, pl))
                k += 1
        for j, (i, E, m) in enumerate(v):
            script.append('perf g%d_ o %s' % (j, hx(E)))
            for q in range(m): script.append('%s g%d_%d %s' % (rng.choice(['eval', 'evala']), j, q, pl))

        def encode(ev, done, P=P, K=K, tol=tol, i0=i0, pts=pts, v=v, mults=mults, byE=byE, every=every):
            need(ev[0])
            if done['stray']: raise Bad('output: ' + done['stray'][:60])
            w = [(i, E, int(n)) for i, E, n in conv(need(ev[1])['v'])]
            # the interval may include a neighbour at its ends
            flat = lambda q: {i + j for i, _, m in q for j in range(m)}
            if byE and [(i, n) for i, _, n in w] != [(i, m) for i, _, m in v] and flat(v) <= flat(w): return []
            if [(i, n) for i, _, n in w] != [(i, m) for i, _, m in v]: raise Bad('multiplicities %s' % [(i, n) for i, _, n in w])
            out = []
            pos = 2
            def gap(E): return min([abs(E - F) for _, F in every if abs(E - F) > 1e-6 * max(1, abs(E))] + [1e3])
            # the direction of the solution of a nearly double eigenvalue is sensitive to the rounding of E
            def nearest(i, E): return min([abs(E - F) for j, F in every if j != i] + [1e3])
            def eta(E): return min(1e-2, (100 * tol + 2e-7 * max(1., abs(E))) / gap(E))
            def one(ys, E, n):
                s = max(1., abs(E))
                return ('RayTrace', eigf_case(P.V, pts, ys, E, -1, None, None, tol, K=300, KN=300 + eta(E) / tol, chk=chk, dE=100 * tol + 1e-7 * s + eta(E)))
            def image(fs, n, E):
                ch = chk.chain(Chain(P.V, [P.a, P.b], float(E)))
                return ('RayTrace', image_case(ch, K, fs, n, 1e-5 + 1000 * tol + eta(float(E))))
            for (i, E, m) in w:
                fs = []
                for _ in range(m):
                    ys = conv(need(ev[pos])['y'])
                    pos += 1
                    fs.append((ys[0], ys[-1]))
                    out.append(one(ys, float(E), m))
                out.append(image(fs, m, E))
            for (i, E, m) in v:
                n = need(ev[pos], 'perf')['n']
                pos += 1
                if n != m:
                    # as good as coinciding eigenvalues may be taken for a double one and vice versa
                    if m == 2 and n != 1 or m == 1 and n != 2 or nearest(i, E) > 1e-3 * max(1., abs(E)): raise Bad('%d eigenfunctions for multiplicity %d' % (n, m))
                    pos += m
                    continue
                fs = []
                for _ in range(m):
                    ys = conv(need(ev[pos])['y'])
                    pos += 1
                    fs.append((ys[0], ys[-1]))
                    out.append(one(ys, float(E), m))
                out.append(image(fs, m, E))
            return out
        chk.add(script, encode, harness='per', desc=dict(problem=P.describe(), K=K, tol=tol, index=i0, byE=byE, v=v))
    chk.run()


fail_on_error(main)
