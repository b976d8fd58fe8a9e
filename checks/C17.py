import os, sys, math, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain


def main():
    chk = Check('C17')
    rng = chk.rng
    N = 900 if chk.thorough else 110
    DK, DN = float(os.environ.get('DK', 300)), float(os.environ.get('DN', 100))
    plan = [P for P in fixed_sl() for _ in range(2)]
    for P in fixed_problems():
        if not P.jumps: plan.append(SLProb('p=w=1 ' + P.name, C(1), P.V.pieces[0], C(1), P.a, P.b))
    while len(plan) < N: plan.append(random_sl(rng))
    meta, probe = [], []
    for P in plan:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        l, r = random_bc(rng), random_bc(rng)
        i0 = rng.choice([0, 0, 1, 2, 5, 9, 20])
        mk = P.fns() + [P.sl('o', tol)]
        meta.append((P, tol, l, r, i0, mk))
        probe.append(Group('p%d' % len(probe), mk + ['evi o %d %d %s %s' % (i0, i0 + 3, bc_txt(l), bc_txt(r))], None, harness='sl'))
    rec = chk.execute(probe)

    def prepare(a):
        g, (P, tol, l, r, i0, mk), seed = a
        try: v = [float(E) for _, E in conv(need(rec[g.id][0][-1], 'evi')['v'])]
        except (Bad, NonFinite, IndexError, KeyError): return None
        if len(v) != 3: return None
        rg = random.Random(seed)
        return v, *(sample_points(P.q, P.a, P.b, v[k], rg, p=P.p, w=P.w) if resolved_sl(P, l, r, i0 + k, tol) else None for k in (0, 2))
    prep = chk.pmap(prepare, [(g, m, rng.random()) for g, m in zip(probe, meta)])
    for pp, g, (P, tol, l, r, i0, mk) in zip(prep, probe, meta):
        desc = dict(problem=P.describe(), left=l, right=r, tol=tol, index=i0)
        if pp is None:
            chk.add(g.script, lambda ev, done: (_ for _ in ()).throw(Bad('eigenvalues')), harness='sl', desc=desc)
            continue
        Es, *points = pp
        plain = P.name.startswith('p=w=1')
        B = bc_txt(l) + ' ' + bc_txt(r)
        script = list(mk) + ['ep f o %d %d %s' % (i0, i0 + 3, B)]
        for k, pts in zip((0, 2), points):
            if pts is not None: script.append('%s f%d %d %s' % (rng.choice(['eval', 'evala']), k, len(pts), ' '.join(hx(x) for x in pts)))
        if plain:
            Q = Prob('q', P.q, P.a, P.b)
            script += [Q.fn('V'), Q.ms('m', tol), 'evi m %d %d %s' % (i0, i0 + 3, B)]

        def encode(ev, done, P=P, tol=tol, l=l, r=r, i0=i0, points=points, plain=plain):
            if done['stray'] and all(points): raise Bad('output: ' + done['stray'][:60])
            v = conv(need(ev[1])['v'])
            if [i for i, _ in v] != [i0, i0 + 1, i0 + 2]: raise Bad('indices')
            out = []
            L, R = P.dirs(l, r)
            ch = chk.chain(Chain(P.q, [P.a, P.b], float(v[-1][1]) + 1, float(v[0][1]), p=P.p, w=P.w))
            for i, E in v: out.append(('RayTrace', eig_case(ch, L, R, i, E, delta(tol, float(E), ch))))
            n = 2
            for k, pts in zip((0, 2), points):
                if pts is None: continue
                ys = conv(need(ev[n])['y'])
                n += 1
                out.append(('RayTrace', eigf_case(P.q, pts, ys, v[k][1], i0 + k, L, R, tol, K=DK, KN=DN, p=P.p, w=P.w, chk=chk)))
            if plain:
                m = conv(need(ev[n + 1])['v'])
                if [i for i, _ in m] != [i for i, _ in v]: raise Bad('indices of the Schroedinger class')
                out.append(('RayTrace', dict(j='near', runs=[], o=dict(p=[near('p=w=1', a, b, 2 * delta(tol, float(a), ch)) for (_, a), (_, b) in zip(v, m)]))))
            return out
        chk.add(script, encode, harness='sl', desc=desc)
    chk.run()


fail_on_error(main)
