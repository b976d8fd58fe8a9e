"""Random propagation queries (positions relative to the mesh, energies relative to the potential) and their encoding."""
import os
from verif import *
from problems import *
from cases import *
from ray import Chain


def pos(rng, P):
    k = rng.random()
    if k < .12: return hx(P.a)
    if k < .24: return hx(P.b)
    if k < .4: return '@m:o:%d' % rng.randrange(50)
    if k < .5: return '@M:o'
    if k < .65: return '@c:o:%d:%s' % (rng.randrange(50), rng.choice(['0.5', '1e-13', '1e-9', '0.999999999', '0.25', '1']))
    return hx(P.a + rng.random() * (P.b - P.a))


def energy(rng, P):
    k = rng.random()
    lo, hi = P.vmin(), P.vmax()
    L = P.b - P.a
    if k < .2: return '@v:o:%d:%s' % (rng.randrange(50), rng.choice(['0', '1e-9', '-1e-9', '1e-4', '-0.3', '-0.6', '0.4', '3', '-10', '-90', '-110', '90', '110']))
    if k < .4: return hx(r3(lo + rng.random() * (hi - lo + 1)))
    if k < .55: return hx(r3(lo - rng.random() * 30 / L))
    if k < .9: return hx(r3(hi + 10 ** rng.uniform(-2, 3.3) / L ** 2 * 3))
    return hx(r3(hi + 10 ** rng.uniform(3, 5) / L ** 2))


def random_y(rng, dE):
    k = rng.random()
    if k < .2: y = [0., 1.]
    elif k < .4: y = [1., 0.]
    else: y = [r3(rng.uniform(-2, 2)), r3(rng.uniform(-5, 5))]
    return y + ([r3(rng.uniform(-.1, .1)), r3(rng.uniform(-.1, .1))] if dE else [0., 0.])


def mesh(rng, P):
    """(builder token, tolerance of the mesh or None)"""
    if P.jumps or rng.random() < .75:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        return P.builder(), tol
    return None, None


def add_props(chk, plan, value=True, angle=False, per=4):
    rng = chk.rng
    for P in plan:
        tol = rng.choice([1e-5, 1e-7, 1e-9])
        script = [P.fn(), P.ms('o', tol), 'sectors o']
        ys = []
        for _ in range(per):
            two = rng.random() < .3
            E, a, b = energy(rng, P), pos(rng, P), pos(rng, P)
            y = [random_y(rng, rng.random() < .4) for _ in range(2 if two else 1)]
            ys.append(y)
            uh = 1 if rng.random() < .9 else 0
            script.append('prop%s o %s %s %s %s %d' % ('2' if two else '', E, ' '.join(hx(t) for c in y for t in c), a, b, uh))

        def encode(ev, done, P=P, tol=tol, ys=ys):
            out = []
            need(ev[0], 'ms')
            sec = conv(need(ev[1], 'sectors')['s'])
            for e, y in zip(ev[2:], ys):
                e = need(e)
                if 'inf' in e['E']: continue # an energy relative to a sector of no width
                E = hexnum(e['E'])
                if max(0., P.vmax() - float(E)) ** .5 * (P.b - P.a) * 3 > 650: continue # growth not representable in double precision
                if abs(float(E)) * (P.b - P.a) ** 2 > 1e8: continue # an energy at the scale of a sector of nearly no width
                a, b = conv(e['ab'])
                Ys, ths = conv(e['Y']), conv(e['th'])
                if len(y) == 1: Ys, ths = [Ys], [ths]
                ch = chk.chain(Chain(P.V, [a, b], float(E)))
                amp = detour(P.V, float(E), sec, [a, b])
                for c in range(len(y)):
                    pc = prop_case(ch, P.V, E, y[c], Ys[c], ths[c], tol, angle=angle, value=value, amp=amp, K=float(os.environ.get('DK', 30)), KE=float(os.environ.get('DKE', 30)))
                    if pc: out.append(('RayTrace', pc))
            return out
        chk.add(script, encode, desc=dict(problem=P.describe(), tol=tol, queries=script[3:]))
