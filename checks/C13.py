import os, sys, math, random, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from ray import Chain


def main():
    chk = Check('C13')
    rng = chk.rng
    beh = chk.behaviours('HalfMerge')
    wins = [(t['lo'], t['hi']) for t in beh if t['k'] == 'index']
    ewin = [(t['lo'], t['hi']) for t in beh if t['k'] == 'energy']
    W = 8
    N = 900 if chk.thorough else 110
    plan = [P for P in fixed_problems() if P.even] * 2
    plan += [random_doublet(rng) for _ in range(N // 6)]
    while len(plan) < N: plan.append(random_problem(rng, even=True))
    meta, probe = [], []
    for P in plan:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        r = random_bc(rng)
        l = (r[0], -r[1])
        base = rng.choice([0, 0, 0, 2, 5, 11, 40])
        mk = [P.fn(), P.half('h', tol), P.ms('o', tol)]
        B = bc_txt(l) + ' ' + bc_txt(r)
        script = mk + ['evi o %d %d %s' % (base, base + W + 1, B), 'evi1 h %d %d %s' % (base, base + W + 1, bc_txt(r))]
        meta.append((P, tol, l, r, base, mk))
        probe.append(Group('p%d' % len(probe), script, None))
    rec = chk.execute(probe)

    def prepare(a):
        (P, tol, l, r, base, mk), g, seed = a
        try: Es = [float(E) for _, E in conv(need(rec[g.id][0][-1])['v'])]
        except (Bad, NonFinite, IndexError, KeyError): return None
        if len(Es) != W + 1: return None
        Es = Es[:W]
        rg = random.Random(seed)
        ks = sorted(rg.sample(range(W), 3))
        return (ks, [resolved(P.V, P.a, P.b, l, r, base + k, tol) for k in ks],
                [resolved(P.V, 0., P.b, (1., 0.) if (base + k) % 2 == 0 else (0., 1.), r, (base + k) // 2, tol) for k in ks],
                [sample_points(P.V, P.a, P.b, Es[k], rg) for k in ks], Chain(P.V, [P.a, P.b], Es[-1] + 1, Es[0]).om)
    prep = chk.pmap(prepare, [(m, g, rng.random()) for g, m in zip(probe, meta)])
    for pp, g, (P, tol, l, r, base, mk) in zip(prep, probe, meta):
        ev, done = rec[g.id]
        try:
            full = conv(need(ev[-2], 'evi')['v'])
            half = conv(need(ev[-1])['v'])
        except (Bad, NonFinite, IndexError, KeyError): full = half = []
        if [i for i, _ in full] != list(range(base, base + W + 1)) or [i for i, _ in half] != [i for i, _ in full]:
            chk.add(g.script, lambda ev, done: (_ for _ in ()).throw(Bad('indices')), desc=dict(problem=P.describe(), right=r, tol=tol, base=base))
            continue
        Es = [float(E) for _, E in half[:W]]
        Enext = float(half[W][1])
        full = full[:W]
        B, b1 = bc_txt(l) + ' ' + bc_txt(r), bc_txt(r)
        script = list(mk)
        # index and energy windows on both classes
        wi = rng.sample(wins, 7)
        we = rng.sample(ewin, 5)
        cells = [Es[0] - max(.1, 1e-3 * abs(Es[0]))] + [(Es[i] + Es[i + 1]) / 2 for i in range(W - 1)] + [(Es[-1] + Enext) / 2]
        ks, res_full, res_half, points, om = pp
        dmax = max([pair_slack(Es, om)] + [delta(tol, E, types.SimpleNamespace(om=om)) for E in Es])
        clear = [all(abs(c - E) > 4 * dmax for E in Es + [Enext]) for c in cells]
        we = [(a, b) for a, b in we if (a > 0 or base == 0) and clear[a] and clear[b]]
        cmds = []
        for a, b in wi:
            cmds += [('i', a, b, 'evi1 h %d %d %s' % (base + a, base + b, b1)), ('i', a, b, 'ep1 e%d_ h %d %d %s' % (len(cmds), base + a, base + b, b1))]
        for a, b in we:
            # nothing below the first cell belongs to the window: the base index has predecessors
            cmds += [('e', a, b, 'ev1 h %s %s %s' % (hx(cells[a]), hx(cells[b]), b1)), ('e', a, b, 'ev o %s %s %s' % (hx(cells[a]), hx(cells[b]), B))]
        script += [c[3] for c in cmds]
        gap = [min([abs(Es[k] - Es[j]) for j in range(W) if j != k]) for k in range(W)]
        script += ['ep1 f h %d %d %s' % (base, base + W, b1), 'ep g o %d %d %s' % (base, base + W, B)]
        todo = []
        for k, rf, rh, pts in zip(ks, res_full, res_half, points):
            script += ['eve1 h %s %s %d' % (hx(Es[k]), b1, base + k), 'eve o %s %s %d' % (hx(Es[k]), B, base + k)]
            if not rh: continue
            if pts is None: continue
            pts = sorted(set(pts) | {-x for x in pts})
            t = '%d %s' % (len(pts), ' '.join(hx(x) for x in pts))
            byE = gap[k] > 1e4 * dmax and 0 < k < W - 1
            script += ['%s f%d %s' % (rng.choice(['eval', 'evala']), k, t), 'ef1 q%d h %s %s %d' % (k, hx(Es[k]), b1, -1 if byE and rng.random() < .6 else base + k),
                       '%s q%d %s' % (rng.choice(['eval', 'evala']), k, t), 'eval g%d %s' % (k, t)]
            todo.append((k, rf, pts, len(script)))

        def encode(ev, done, P=P, tol=tol, l=l, r=r, base=base, cmds=cmds, ks=ks, todo=todo, script=script, dmax=dmax, gap=gap, om=om):
            sk = sum(c.startswith('fn ') for c in script)
            at = lambda n: ev[n - sk]     # event of the n-th command
            out, qs = [], []
            n0 = 3
            half = conv(need(at(n0 + len(cmds)))['v'])
            full = conv(need(at(n0 + len(cmds) + 1))['v'])
            if [i for i, _ in half] != list(range(base, base + W)): raise Bad('indices of the half-range eigenpairs')
            ref = [E for _, E in half]
            for n, (kind, a, b, _) in enumerate(cmds):
                qs.append((base + a, base + b, [(i, E) for i, E in conv(need(at(n0 + n))['v'])]))
            qs.append((base, base + W, [(i, E) for i, E in full]))
            out.append(('RayTrace', windows_case(qs, base, ref, 2 * dmax, dmax)))
            ch = chk.chain(Chain(P.V, [P.a, P.b], float(ref[-1]) + 1, float(ref[0])))
            for k in ks: out.append(('RayTrace', eig_case(ch, l, r, base + k, ref[k], max(delta(tol, float(ref[k]), ch), pair_slack(ref, om)))))
            n = n0 + len(cmds) + 2
            pairs = []
            done_ = {k: (rf, pts) for k, rf, pts, _ in todo}
            for k in ks:
                e1, e2 = conv(need(at(n))['err']), conv(need(at(n + 1))['err'])
                n += 2
                # both estimates are small: they measure the same discretisation error
                pairs += [near('error estimate of index %d' % (base + k), abs(frac(e1)), 0, 2 * dmax), near('error estimate (full)', abs(frac(e2)), 0, 2 * dmax),
                          near('sign of the estimate', min(frac(e1), frac(e2), Fraction(0)), 0, Fraction(1, 10 ** 300))]
                if k not in done_: continue
                rf, pts = done_[k]
                E = ref[k]
                ys = [conv(need(at(n + t))['y']) for t in (0, 2, 3)]
                n += 4
                if len(ys[0]) != len(pts) or len(ys[1]) != len(pts): raise Bad('length')
                mesh = []
                for y in ys[:2]:
                    out.append(('RayTrace', eigf_case(P.V, pts, y, E, base + k, l, r, tol, K=300, KN=100, maxbad=2, chk=chk)))
                    # parity
                    s = max(abs(t[c]) for t in y for c in (0, 1))
                    par = 1 if (base + k) % 2 == 0 else -1
                    for t in range(len(pts) // 2):
                        pairs += [near('parity', y[t][0], par * y[-1 - t][0], s * Fraction(1, 10 ** 9)), near('parity of the derivative', y[t][1], -par * y[-1 - t][1], s * Fraction(1, 10 ** 9))]
                if rf and gap[k] > 1e4 * dmax:
                    s0, s1 = (max(abs(t[c]) for t in ys[0]) for c in (0, 1))
                    f = ys[2]
                    j = max(range(len(pts)), key=lambda t: abs(ys[0][t][0]))
                    sg = 1 if f[j][0] * ys[0][j][0] > 0 else -1
                    eps = frac(min(.1, 1000 * tol * max(1, 100 / gap[k]) + 1e-3))
                    for t in range(len(pts)):
                        pairs += [near('half = full', ys[0][t][0], sg * f[t][0], eps * s0), near('half = full (derivative)', ys[0][t][1], sg * f[t][1], eps * s1 + eps * s0 * ch.om)]
            out.append(('RayTrace', dict(j='near', runs=[], o=dict(p=pairs))))
            return out
        chk.add(script, encode, desc=dict(problem=P.describe(), right=r, tol=tol, base=base, ks=ks))
    chk.run()


fail_on_error(main)
