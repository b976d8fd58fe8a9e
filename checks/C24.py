import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from cases import need

LIM = 2 ** 30
BIN = {'add', 'sub', 'mul', 'iadd', 'isub', 'asg', 'eq', 'ne'}
SCALAR = {'sadd', 'ssub', 'smul', 'sdiv', 'rsadd', 'rssub', 'rsmul', 'isadd', 'issub', 'ismul', 'isdiv', 'fill'}


def der(c, d):
    r = list(c)
    for _ in range(d): r = [k * t for k, t in enumerate(r)][1:]
    return r


class Prog:
    """generates executable programs: mirrors the degrees, units and magnitudes of the registers"""

    def __init__(self, rng, t, unit):
        self.rng, self.t, self.u = rng, t, unit
        self.regs, self.m = {}, {}
        self.script, self.ops = [], []

    def num(self, v, m): return hx(float(v)) if m == 0 else hx(math.ldexp(v, m * self.u))

    def new(self, name, deg):
        r = self.rng
        mult = r.choice([1, 1, 12, 60]) if deg <= 4 else 1
        c = [mult * r.choice([0, 1, -1, r.randint(-9, 9)]) for _ in range(deg + 1)]
        self.regs[name], self.m[name] = c, 1
        self.emit('new', 'new %s %d %s' % (name, deg, ' '.join(self.num(v, 1) for v in c)), d=name, unit=1)

    def emit(self, op, line, unit, **k):
        self.script.append('poly %s %s' % (self.t, line))
        self.ops.append(dict(op=op, unit=unit, units=dict(self.m), **k))

    def binary(self, op, dst, a, b):
        p, q = self.regs[a], self.regs[b]
        if len(p) > 5 or len(q) > 5: return False
        if op != 'mul' and self.m[a] != self.m[b]: return False
        if op in ('iadd', 'isub') and len(q) > len(p): return False
        if op in ('eq', 'ne', 'asg') and len(p) != len(q): return False
        n = max(len(p), len(q))
        P, Q = p + [0] * (n - len(p)), q + [0] * (n - len(q))
        if op in ('add', 'iadd'): v = [s + t for s, t in zip(P, Q)]
        elif op in ('sub', 'isub'): v = [s - t for s, t in zip(P, Q)]
        elif op == 'asg': v = list(q)
        elif op == 'mul':
            v = [0] * (len(p) + len(q) - 1)
            for i, s in enumerate(p):
                for j, t in enumerate(q): v[i + j] += s * t
            if sum(map(abs, p)) * sum(map(abs, q)) > LIM: return False
        else: v = [int((p == q) == (op == 'eq'))]
        if op in ('iadd', 'isub', 'asg'): self.regs[a] = v
        self.regs[dst] = list(v)
        self.m[dst] = 0 if op in ('eq', 'ne') else self.m[a] + self.m[b] if op == 'mul' else self.m[a]
        if abs(self.m[dst] * self.u) > 300: return False
        self.emit(op, 'bin %s %s %s %s' % (op, dst, a, b), self.m[dst], d=dst, a=a, b=b)
        return True

    def unary(self, op, dst, a):
        r = self.rng
        p, m = self.regs[a], self.m[a]
        k = dict(d=dst, a=a)
        x = None
        if op in SCALAR:
            x = r.choice([0, 1, -1, 2, 3, -5, r.randint(-20, 20)])
            if op in ('sdiv', 'isdiv'):
                ds = [s for s in (1, -1, 2, -3, 4, 5, 6, 12) if all(c % s == 0 for c in p)]
                x = r.choice(ds)
            k['x'] = x
        c0 = [x] + [0] * (len(p) - 1)
        if op in ('neg',): v = [-c for c in p]
        elif op in ('pos', 'der0'): v = list(p)
        elif op in ('der1', 'der2', 'der3'):
            d = int(op[3])
            if len(p) <= d: return False
            v = der(p, d)
        elif op == 'integ':
            if len(p) > 8 or any(c % (i + 1) for i, c in enumerate(p)): return False
            v = [0] + [c // (i + 1) for i, c in enumerate(p)]
        elif op in ('up', 'up2'):
            n = 1 if op == 'up' else 2
            if len(p) + n > 9: return False
            v = p + [0] * n
        elif op in ('sadd', 'rsadd', 'isadd'): v = [s + t for s, t in zip(p, c0)]
        elif op in ('ssub', 'issub'): v = [s - t for s, t in zip(p, c0)]
        elif op == 'rssub': v = [t - s for s, t in zip(p, c0)]
        elif op in ('smul', 'rsmul', 'ismul'): v = [x * c for c in p]
        elif op in ('sdiv', 'isdiv'): v = [c // x for c in p]
        elif op == 'fill': v = c0
        if max(map(abs, v)) > LIM: return False
        if op in ('isadd', 'issub', 'ismul', 'isdiv'): self.regs[a] = v
        self.regs[dst], self.m[dst] = list(v), m
        xs = '' if x is None else self.num(x, m if op in ('sadd', 'rsadd', 'isadd', 'ssub', 'issub', 'rssub', 'fill') else 0)
        self.emit(op, 'un %s %s %s %s' % (op, dst, a, xs), m, **k)
        return True

    def observe(self, a):
        r = self.rng
        p = self.regs[a]
        ops = ['size', 'eval', 'deval0', 'deval1', 'deval2', 'deval3'] + (['ieval'] if all(c % (i + 1) == 0 for i, c in enumerate(p)) else [])
        for op in ops:
            x = r.choice([0, 1, -1, 2, -2, 3, -3, 5, 10, -10])
            if sum(abs(c) * abs(x) ** (i + 1) * (i + 1) ** 3 for i, c in enumerate(p)) > LIM: x = r.choice([1, -1, 0])
            self.emit(op, 'obs %s %s %s' % (op, a, '' if op == 'size' else self.num(x, 0)), 0 if op == 'size' else self.m[a], a=a, x=x)


def main():
    chk = Check('C24', harness_default='poly')
    rng = chk.rng
    programs = chk.behaviours('Poly')
    rounds = 12 if chk.thorough else 1
    skipped = 0
    for _ in range(rounds):
        for ops in programs:
            for attempt in range(12):
                g = Prog(rng, rng.choice(['double', 'double', 'long']), rng.choice([0, 0, -3, 7, -40]))
                g.new('p', rng.randint(0, 4))
                g.new('q', rng.choice([len(g.regs['p']) - 1, rng.randint(0, 4)]))
                if rng.random() < .1: g.regs['q'] = g.regs['q']
                ok = True
                for i, op in enumerate(ops):
                    src = ['p', 'q'] + ['r%d' % j for j in range(i)]
                    a = 'r%d' % (i - 1) if i and rng.random() < .8 else rng.choice(src)
                    b = rng.choice(src + ([a] if rng.random() < .3 else []))
                    if op in BIN and rng.random() < .4 and i: a, b = b, a
                    ok = ok and (g.binary(op, 'r%d' % i, a, b) if op in BIN else g.unary(op, 'r%d' % i, a))
                    if not ok: break
                if ok: break
            if not ok:
                skipped += 1
                continue
            for n in list(g.regs): g.observe(n)

            def encode(ev, done, g=g):
                if done['stray']: raise Bad('output: ' + done['stray'][:60])
                def ints(l, m):
                    out = []
                    for v in l:
                        v = frac(v) / Fraction(2) ** (m * g.u)
                        out.append(int(v) if v.denominator == 1 and abs(v) < 2 ** 31 - 1 else 2 ** 31 - 1)  # not one of the integers of the program
                    return out
                s = []
                for o, e in zip(g.ops, ev):
                    need(e)
                    t = {k: v for k, v in o.items() if k not in ('unit', 'units')}
                    t['c'] = ints(conv(e['c']), o['unit'])
                    if 'R' in e: t['r'] = {n: ints(conv(v), o['units'][n]) for n, v in e['R'].items()}
                    s.append(t)
                if len(ev) < len(g.ops): raise Bad('missing results')
                return [('PolyTrace', dict(j='program', runs=[], o=dict(s=s)))]
            chk.add(g.script, encode, harness='poly', desc=dict(program=ops, scalar=g.t, script=g.script))
    chk.note = dict(programs=len(programs) * rounds, not_executable=skipped)
    chk.run()


fail_on_error(main)
