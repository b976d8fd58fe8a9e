import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain


def main():
    chk = Check('C11')
    rng = chk.rng
    N = 2000 if chk.thorough else 220
    DK, DN = float(os.environ.get('DK', 300)), float(os.environ.get('DN', 100))
    plan = [P for P in fixed_problems() for _ in range(2)]
    while len(plan) < N: plan.append(random_problem(rng))
    meta, probe = [], []
    for n, P in enumerate(plan):
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        l, r = random_bc(rng), random_bc(rng)
        i0 = rng.choice([0, 0, 0, 1, 2, 4, 7, 12])
        mk = [P.fn(), P.ms('o', tol), 'sectors o']
        meta.append((P, tol, l, r, i0, mk))
        probe.append(Group('p%d' % n, mk + ['evi o %d %d %s %s' % (i0, i0 + 2, bc_txt(l), bc_txt(r))], None))
    rec = chk.execute(probe)
    for n, (P, tol, l, r, i0, mk) in enumerate(meta):
        ev, done = rec['p%d' % n]
        try:
            Es = [float(e) for _, e in conv(need(ev[-1], 'evi')['v'])]
        except (Bad, NonFinite, IndexError, KeyError):
            Es = []
        if len(Es) != 2:
            chk.add(probe[n].script, lambda ev, done: (_ for _ in ()).throw(Bad('eigenvalues')), desc=dict(problem=P.describe()))
            continue
        pts = sample_points(P.V, P.a, P.b, max(Es), rng)
        if pts is None or not all(resolved(P.V, P.a, P.b, l, r, i0 + k, tol) for k in (0, 1)): continue
        ev_ = rng.choice(['eval', 'evala'])
        script = list(mk) + ['ep f o %d %d %s %s' % (i0, i0 + 2, bc_txt(l), bc_txt(r))]
        for k in range(2): script.append('%s f%d %d %s' % (ev_, k, len(pts), ' '.join(hx(x) for x in pts)))
        # the same eigenfunction asked for by energy, with a boundary condition of another length
        f = r3(rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2))
        script += ['ef g o %s %s %s %d' % (hx(Es[0]), bc_txt((l[0] * f, l[1] * f)), bc_txt(r), rng.choice([-1, i0])), '%s g %d %s' % (ev_, len(pts), ' '.join(hx(x) for x in pts))]

        def encode(ev, done, P=P, tol=tol, l=l, r=r, i0=i0, pts=pts, Es=Es):
            sec = conv(need(ev[1], 'sectors')['s'])
            v = conv(need(ev[2])['v'])
            if [i for i, _ in v] != [i0, i0 + 1]: raise Bad('indices')
            out = []
            for k, (E, e) in enumerate(((v[0][1], ev[3]), (v[1][1], ev[4]), (frac(Es[0]), ev[6]))):
                ys = conv(need(e)['y'])
                out.append(('RayTrace', eigf_case(P.V, pts, ys, E, i0 + k % 2, l, r, tol, K=DK, KN=DN, sectors=sec, chk=chk)))
            if done['stray']: raise Bad('output: ' + done['stray'][:60])
            return out
        chk.add(script, encode, desc=dict(problem=P.describe(), left=l, right=r, tol=tol, index=i0))
    chk.run()


fail_on_error(main)
