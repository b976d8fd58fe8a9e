"""Mesh problems and the encoding of recorded meshes for spec/MeshTrace.tla."""
import math
from verif import *
from problems import *
from cases import need, near


def wild_problem(rng, even=False):
    """potentials that are hard for the mesh builder"""
    u = rng.uniform
    L = rng.choice([1e-3, .1, 1, 3, 10, 40])
    a = -L / 2 if even else rng.choice([0, 0, -L / 2, -L, 1, -1e3, 1e4])
    b = a + L
    t = (X - float((a + b) / 2)) * float('%.6g' % (4. / L)) if a + b else X * float('%.6g' % (4. / L))
    k = rng.choice(['zero', 'const', 'osc', 'wild', 'spike', 'steep', 'broken', 'large', 'poly', 'linear'])
    s = float('%.3g' % (10 ** u(-1, 2) / L ** 2))
    if k == 'zero': e = C(0)
    elif k == 'const': e = C(float('%.3g' % u(-1e3, 1e3)))
    elif k == 'osc': e = s * cos(r3(u(5, 60)) * t)
    elif k == 'wild': e = s * sin(r3(u(100, 3000)) * t) if not even else s * cos(r3(u(100, 3000)) * t)
    elif k == 'spike': e = s / (r3(10 ** u(-4, -1)) + t * t)
    elif k == 'steep': e = s * (exp(r3(u(1, 4)) * t) if not even else exp(t * t))
    elif k == 'large': e = C(1e8) + s * 1e4 * t * t
    elif k == 'poly': e = s * t * t * t * t
    elif k == 'linear': e = s * t if not even else s * t * t
    else:
        c1 = float('%.4g' % (a + u(.1, .9) * L))
        return Prob(k, Piecewise([C(s), C(-s)], [c1]), a, b)
    return Prob(k, e, a, b, even)


def mesh_case(ev, lo, hi, declared=(), n=0):
    """encode a 'sectors' event"""
    need(ev, 'sectors')
    s = conv(ev['s'])
    if len(s) != int(ev['sc']): raise Bad('sectorCount %s for %d sectors' % (ev['sc'], len(s)))
    lo, hi, j = frac(lo), frac(hi), [frac(x) for x in declared]
    v = sorted({x for t in s for x in t[:2]} | {lo, hi} | set(j))
    r = {x: i for i, x in enumerate(v)}
    hz = all(frac(float(t[1]) - float(t[0])) == t[2] and t[2] > 0 for t in s)
    c = dict(s=[[r[t[0]], r[t[1]], int(t[3])] for t in s], d=[r[lo], r[hi]], mi=int(ev['mi']), j=[r[x] for x in j], n=n, hz=hz)
    out = [('MeshTrace', dict(j='uniform' if n else 'automatic', o=c))]
    if n:
        w = (hi - lo) / n
        eps = max(1e-9 * float(w), 1e-15 * n * max(abs(float(lo)), abs(float(hi))))
        if len(s) == n: out.append(('RayTrace', dict(j='near', runs=[], o=dict(p=[near('width', t[1] - t[0], w, eps) for t in s]))))
    return out


def declared_list(labels, N, P, rng, close=False):
    """positions of the labels -1..N+1 of Mesh.tla"""
    L = P.b - P.a
    if close:
        x0 = P.a + rng.random() * L
        ins = sorted(min(P.b, max(P.a, x0 + rng.random() * 1e-6 * L)) for _ in range(N - 1))
    else:
        ins = sorted(P.a + rng.random() * L for _ in range(N - 1))
        if rng.random() < .3 and N > 1: ins[0] = 0.4956864123 * P.b + 0.5043135877 * P.a
        if rng.random() < .3 and N > 1: ins[-1] = math.nextafter(P.b, P.a)
        if rng.random() < .3 and N > 1: ins[0] = math.nextafter(P.a, P.b)
        ins.sort()
    pos = [P.a] + ins + [P.b]
    o = []
    for l in labels:
        o.append(P.a - rng.random() * L - 1e-3 if l < 0 else P.b + rng.random() * L + 1e-3 if l > N else pos[l])
    return o


def jump_txt(j):
    return 'jump %d %s' % (len(j), ' '.join(map(hx, j)))


def coupled(rng, P, n, jumps=None):
    """harness lines of a coupled problem around the scalar one: (lines, names)"""
    lines, names = [], []
    L = P.b - P.a
    k = 0
    for j in range(n):
        for i in range(j + 1):
            name = 'f%d' % k
            k += 1
            if i == 0 and j == 0: V = P.V
            else:
                s = float('%.3g' % (rng.uniform(-5, 5) / L ** 2))
                t = (X - float((P.a + P.b) / 2)) * float('%.6g' % (2 / L))
                V = Piecewise.wrap(rng.choice([C(s), s * t, s * cos(2 * t), s * t * t, C(0)]))
            lines.append('fn %s %s' % (name, V.text()))
            names.append(name)
    return lines, names


def cs_line(o, n, names, P, tol, builder):
    return 'cs %s %d %s %s %s %s %s' % (o, n, ' '.join(names), hx(P.a), hx(P.b), hx(tol), builder)
