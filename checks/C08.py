import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain


def main():
    chk = Check('C08')
    rng = chk.rng
    windows = chk.behaviours('Search')
    W = max(h for _, h in windows)
    N = 3000 if chk.thorough else 400
    plan = []
    for P in fixed_problems():
        plan.append(('ms', P))
        if P.even: plan.append(('half', P))
    for S in fixed_sl(): plan.append(('sl', S))
    while len(plan) < N:
        k = rng.random()
        if k < .5: plan.append(('ms', random_problem(rng)))
        elif k < .75: plan.append(('half', random_problem(rng, even=True)))
        else: plan.append(('sl', random_sl(rng)))
    for _ in range(N // 6): plan.append(('half', random_doublet(rng))) # both classes interleave
    plan.append(('known', Prob('boundary state', C(0), 0, 1))) # known finding
    for kind, P in plan:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        l, r = random_bc(rng), random_bc(rng)
        if kind == 'half': l = r
        base = rng.choice([0, 0, 0, 1, 2, 3] if P.name.startswith('doublet') else [0, 0, 0, 1, 2, 3, 7, 12, 25])
        if kind == 'known': kind, tol, base, l, r = 'ms', 2. ** -20, 0, (0., 1.), (-2. ** -11, -2.)
        if kind == 'ms': script = [P.fn(), P.ms('o', tol)]
        elif kind == 'half': script = [P.fn(), P.half('o', tol)]
        else: script = P.fns() + [P.sl('o', tol)]
        pre = len(script)
        ws = [(base + a, base + b) for a, b in windows]
        rng.shuffle(ws)
        ws = [(base, base + W)] + ws
        cmds = []
        for n, (a, b) in enumerate(ws):
            c = rng.choice(['evi', 'evi', 'ep'])
            one = kind != 'sl' and l == r and rng.random() < .3
            cmds.append((c, '%s%s%s o %d %d %s%s' % (c, '1' if one else '', ' f%d_' % n if c == 'ep' else '', a, b, bc_txt(l), '' if one else ' ' + bc_txt(r))))
        script += [c for _, c in cmds]

        def encode(ev, done, kind=kind, P=P, l=l, r=r, tol=tol, ws=ws, base=base, pre=pre):
            ev = ev[-len(ws):]
            qs = [(a, b, [(i, E) for i, E in conv(need(e)['v'])]) for (a, b), e in zip(ws, ev)]
            ref = [E for _, E in qs[0][2]]
            if len(ref) != W: raise Bad('wrong number of eigenvalues')
            if kind == 'sl':
                ch = chk.chain(Chain(P.q, [P.a, P.b], float(ref[-1]) + 1, float(ref[0]), p=P.p, w=P.w))
                l, r = P.dirs(l, r)
            else:
                ch = chk.chain(Chain(P.V, [P.a, P.b], float(ref[-1]) + 1, float(ref[0])))
                if kind == 'half': l = (r[0], -r[1])
            dmax = max([pair_slack(ref, ch.om)] + [delta(tol, float(E), ch) for E in ref])
            out = [('RayTrace', windows_case(qs, base, ref, 2 * dmax, dmax))]
            for k in (0, rng.randrange(1, W)):
                out.append(('RayTrace', eig_case(ch, l, r, base + k, ref[k], max(delta(tol, float(ref[k]), ch), pair_slack(ref, ch.om)))))
            return out
        chk.add(script, encode, harness='sl' if kind == 'sl' else 'core', desc=dict(kind=kind, problem=P.describe(), left=l, right=r, tol=tol, base=base))
    chk.run()


fail_on_error(main)
