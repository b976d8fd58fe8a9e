import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from problems import *
from cases import *
from forms import Form
from fix import flo
from expr import Piecewise

ONLY = dict(ms={'shift', 'mirror', 'move', 'stretch', 'unit', 'split'}, half={'shift', 'stretch', 'unit', 'split', 'mirror'},
            per={'shift', 'mirror', 'move', 'stretch', 'rotate', 'split'}, sl={'shift', 'mirror', 'move', 'stretch', 'unit', 'factor', 'weight'})
# generators of spec/Forms.tla that leave the numbers alone stand for all of these
SAME = dict(scale=['unit', 'factor'], split=['split', 'rotate'], stretch=['stretch', 'stretch', 'weight'])
I, A = (1., 0., 0., 1.), (-1., 0., 0., -1.)
KD = float(os.environ.get('DK', 1))


def error(F, tol, E, gap=None):
    a, b = F.a, F.b
    if F.kind == 'sl': return max((100 if tol < 1e-7 else 30) * tol, 1e-11 * (1 + abs(E)))
    v = [F.f['V'](a + (b - a) * (i + .5) / 100) for i in range(100)]
    if F.kind == 'per': return accuracy(tol, E, b - a, gap, min(v))
    return max((100 if tol < 1e-7 else 30) * tol, 1e-11 * (1 + abs(E) + max(v) - min(v)))


def main():
    chk = Check('C23', harness_default='per')
    rng = chk.rng
    words = [w for w in chk.behaviours('Forms') if w]
    # most words have length 3: repeat, with every word at least once
    N = 4000 if chk.thorough else 330
    plan = list(words)
    while len(plan) < N: plan.append(rng.choice(words))
    rng.shuffle(plan)
    used = {}
    for word in plan:
        kind = rng.choice(['ms', 'ms', 'half', 'per', 'sl'])
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        if kind == 'sl':
            S = rng.choice(fixed_sl()) if rng.random() < .2 else random_sl(rng)
            F = Form('sl', dict(p=S.p, q=S.q, w=S.w), S.a, S.b, random_bc(rng), random_bc(rng))
        else:
            P = rng.choice([p for p in fixed_problems() if kind != 'half' or p.even]) if rng.random() < .2 else random_problem(rng, even=True if kind == 'half' else None)
            l, r = random_bc(rng), random_bc(rng)
            if kind == 'half': l = r
            F = Form(kind, dict(V=P.V), P.a, P.b, l, r) if kind != 'per' else Form(kind, dict(V=P.V), P.a, P.b, K=rng.choice([I, I, A]))
        if kind == 'per':
            vs = [F.f['V'](F.a + (F.b - F.a) * (i + .5) / 200) for i in range(200)]
            if sum(math.sqrt(v - min(vs)) for v in vs) * (F.b - F.a) / 200 > 15: continue    # see C14
        G = F
        done_word = []
        for g in word:
            c = [t for t in SAME.get(g, [g]) if t in ONLY[kind]]
            if not c: continue
            t = rng.choice(c)
            G = G.apply(t, rng)
            done_word.append(t)
        if not done_word: continue
        used[kind] = used.get(kind, 0) + 1
        base = rng.choice([0, 0, 0, 1, 2, 5, 12])
        reqs = [(True, base, base + 4)]
        if kind != 'sl':
            v = [F.f['V'](F.a + (F.b - F.a) * (i + .5) / 100) for i in range(100)]
            s = max(1., (math.pi / (F.b - F.a)) ** 2)
            for _ in range(2):
                lo = min(v) + rng.uniform(-1, 20) * s
                reqs.append((False, lo, lo + rng.choice([1, 5, 20]) * s * rng.random()))
        script = []
        for o, Q in (('o', F), ('g', G)):
            script += Q.script(o, tol)
            one = kind in ('ms', 'half') and Q.l == Q.r and rng.random() < .3
            for ix, lo, hi in reqs:
                if ix: script.append('evi%s %s %d %d%s' % ('1' if one else '', o, lo, hi, Q.bc(one)))
                else: script.append('ev%s %s %s %s%s' % ('1' if one else '', o, hx(Q.energy(lo)), hx(Q.energy(hi)), Q.bc(one)))

        def encode(ev, done, F=F, G=G, tol=tol, reqs=reqs, kind=kind):
            for e in ev: need(e)
            ev = [e for e in ev if e['ev'].startswith('ev')]
            n = len(reqs)
            if len(ev) != 2 * n: raise Bad('missing results')
            q = []
            for (ix, lo, hi), x, y in zip(reqs, ev, ev[n:]):
                ref, got = ([(t[0], t[1], t[2] if len(t) > 2 else 1) for t in conv(e['v'])] for e in (x, y))
                if kind == 'per' and ix:
                    # an eigenvalue may be reported as a double one or as two close ones: compare the sequence of values
                    ref, got = ([(i + j, E, 1) for i, E, m in s for j in range(m)] for s in (ref, got))
                    ref, got = ([t for t in s if lo <= t[0] < hi] for s in (ref, got))
                elif kind == 'per': ref, got = ([(i + j, E, 1) for i, E, m in s for j in range(m)] for s in (ref, got))
                Es = [float(t[1]) for t in ref] + [lo, hi]
                Eg = [float(t[1]) for t in got] + [G.energy(t) for t in Es]
                eps = KD * (abs(G.scale) * max(error(F, tol, t) for t in Es) + max(error(G, tol, t) for t in Eg))
                enc_ = lambda s: [dict(i=i, m=m, e=flo(frac(E))) for i, E, m in s]
                q.append(dict(win=ix, lo=flo(frac(lo)), hi=flo(frac(hi)), eps=flo(frac(eps)), ref=enc_(ref), got=enc_(got)))
            return [('FormsTrace', dict(j='forms', runs=[], o=dict(steps=[dict(k=k, x=flo(x)) for k, x in G.steps], q=q)))]
        chk.add(script, encode, harness='all' if kind == 'sl' else 'per', desc=dict(word=done_word, original=F.describe(), form=G.describe(), tol=tol, requests=reqs))
    chk.note = dict(words=len(words), kinds=used)
    chk.run()


fail_on_error(main)
