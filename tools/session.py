"""Sessions: histories of spec/Session.tla made concrete for every class, and their encoding for spec/SessionTrace.tla."""
import hashlib, json, math
from problems import *
from verif import Bad, hx

KINDS = ('ms', 'half', 'per', 'sl')
HARNESS = dict(ms='core', half='core', per='per', sl='sl')


class Plan:
    """a problem with a pool of requests for every label of Session.tla"""

    def __init__(self, kind, rng, pool=3, jumps=None):
        self.kind, self.rng = kind, rng
        self.tol = rng.choice([1e-4, 1e-6, 1e-8])
        if kind == 'sl':
            self.P = random_sl(rng)
            self.fns = self.P.fns()
        else:
            self.P = random_problem(rng, even=True if kind == 'half' else None, jumps=jumps)
            self.fns = [self.P.fn()]
        P = self.P
        self.lo, self.hi = (0., P.b) if kind == 'half' else (P.a, P.b)
        L = self.hi - self.lo
        uni = rng.random() < .2
        bt = 'uni %d' % rng.choice([2, 3, 7, 16]) if uni else None
        if kind == 'ms': self.build = lambda o: P.ms(o, self.tol, builder=bt)
        elif kind == 'half': self.build = lambda o: P.half(o, self.tol, builder=bt)
        elif kind == 'sl': self.build = lambda o: P.sl(o, self.tol)
        else:
            K = rng.choice(['0x1p+0 0x0p+0 0x0p+0 0x1p+0', '-0x1p+0 0x0p+0 0x0p+0 -0x1p+0'])
            self.build = lambda o: 'per %s V %s %s %s %s %s' % (o, hx(P.a), hx(P.b), hx(self.tol), bt or P.builder(), K)
        self.uni = bt
        self.v0 = 0. if kind == 'sl' else P.vmin(60)
        self.scale = (math.pi / L) ** 2
        self.bc = [random_bc(rng) for _ in range(2)]
        self.pool = {}
        self.size = pool

    def energy(self):
        return float('%.5g' % (self.v0 + self.scale * self.rng.uniform(-1, 30)))

    def x(self):
        r = self.rng
        return r.choice([self.lo, self.hi, self.lo + r.random() * (self.hi - self.lo), self.lo + r.random() * (self.hi - self.lo)])

    def out(self):
        r = self.rng
        L = self.hi - self.lo
        k = r.random()
        if k < .2: return math.nextafter(self.lo, -math.inf)
        if k < .4: return math.nextafter(self.hi, math.inf)
        if k < .6: return self.lo - r.random() * L
        if k < .8: return self.hi + r.random() * L
        return r.choice([self.lo - 1e6, self.hi + 1e6, math.inf, -math.inf])

    def sides(self):
        l = self.rng.choice(self.bc)
        r = l if self.kind == 'half' else self.rng.choice(self.bc)
        return bc_txt(l) + ' ' + bc_txt(r)

    def vec(self, n=4):
        return ' '.join(hx(float('%.4g' % self.rng.uniform(-2, 2))) for _ in range(n))

    def request(self, label):
        """(command with %o for the object and %f for the eigenfunction, shape) of a label; None: not available"""
        k = label
        v = self.pool.setdefault(label, [])
        if len(v) < self.size: v.append(self.make(label))
        return self.rng.choice(v)

    def make(self, label):
        r, k = self.rng, self.kind
        any_ = dict(t='any')
        i0 = r.choice([0, 0, 1, 2, 5])
        i1 = i0 + r.choice([0, 1, 2, 3])
        rg = dict(t='range', i=[i0, i1])
        if label in ('negative', 'reversed'):
            if label == 'negative':
                i0 = -r.choice([1, 2, 3, 4, 7])
                i1 = i0 + r.choice([0, 1, 2, 3, 6, 9])
            else:
                i0 = r.choice([1, 2, 3, 4, 5])
                i1 = i0 - r.choice([1, 1, 2, 3])
            rg = dict(t='range', i=[i0, i1])
            if r.random() < .5: label = 'values'
            else: label = 'pairs'
        if label == 'asymmetric':
            if k != 'half': return None
            a, b = (0., 1.), (1., 0.)
            while True:
                a, b = random_bc(r), random_bc(r)
                if abs(a[0] * b[1] - a[1] * b[0]) > 1e-3: break
            if r.random() < .3:
                b = (a[0], a[1] + .5) if a[0] else (a[0] + .5, a[1])
            s = bc_txt(a) + ' ' + bc_txt(b)
            v = sorted({a[0], a[1], b[0], b[1]})
            sh = dict(t='sides', x=[v.index(t) for t in (a[0], a[1], b[0], b[1])])
            E = hx(self.energy())
            c = r.choice(['evi %%o 0 2 %s', 'ev %%o ' + E + ' ' + hx(float.fromhex(E) + 10) + ' %s', 'ep g %%o 0 2 %s', 'ef h %%o ' + E + ' %s -1', 'ef h %%o ' + E + ' %s 1', 'eve %%o ' + E + ' %s 0'])
            return (c % s).replace('%%', '%'), sh
        if label == 'values':
            if k == 'per': return 'evi %%o %d %d' % tuple(rg['i']), rg
            if k == 'half' and r.random() < .4: return 'evi1 %%o %d %d %s' % (*rg['i'], bc_txt(r.choice(self.bc))), rg
            return 'evi %%o %d %d %s' % (*rg['i'], self.sides()), rg
        if label == 'pairs':
            if k == 'per': return 'ep g %%o %d %d' % tuple(rg['i']), rg
            if k == 'half' and r.random() < .4: return 'ep1 g %%o %d %d %s' % (*rg['i'], bc_txt(r.choice(self.bc))), rg
            return 'ep g %%o %d %d %s' % (*rg['i'], self.sides()), rg
        if label == 'window':
            E = self.energy()
            F = E + self.scale * r.uniform(0, 12)
            if k == 'sl': return self.make('values')
            if k == 'per': return r.choice(['ev %%o %s %s', 'epE g %%o %s %s']) % (hx(E), hx(F)), any_
            if k == 'half' and r.random() < .4: return 'ev1 %%o %s %s %s' % (hx(E), hx(F), bc_txt(r.choice(self.bc))), any_
            return 'ev %%o %s %s %s' % (hx(E), hx(F), self.sides()), any_
        if label in ('propagate', 'outside'):
            if k == 'sl': return None
            a, b = self.x(), self.x()
            if label == 'outside':
                w = r.randrange(3)
                if w != 1: a = self.out()
                if w != 0: b = self.out()
            v = sorted({a, b, self.lo, self.hi})
            sh = dict(t='points', x=[v.index(a), v.index(b)], d=[v.index(self.lo), v.index(self.hi)])
            uh = r.randrange(2)
            two = k == 'per' or r.random() < .4
            return '%s %%o %s %s %s %s %d' % ('prop2' if two else 'prop', hx(self.energy()), self.vec(8 if two else 4), hx(a), hx(b), uh), sh
        if label == 'matching':
            if k == 'sl': return None
            if k == 'per': return 'perr %%o %s' % hx(self.energy()), any_
            return 'merr %%o %s %s' % (hx(self.energy()), self.sides()), any_
        if label == 'function':
            if k == 'sl': return self.make('pairs')
            if k == 'per': return 'perf f %%o %s' % hx(self.energy()), any_
            ix = r.choice([0, 1, 2, 3] if k == 'half' else [-1, 0, 3])
            if k == 'half' and r.random() < .4: return 'ef1 f0 %%o %s %s %d' % (hx(self.energy()), bc_txt(r.choice(self.bc)), ix), any_
            return 'ef f0 %%o %s %s %d' % (hx(self.energy()), self.sides(), ix), any_
        if label == 'error':
            if k == 'per': return None
            if k == 'half' and r.random() < .4: return 'eve1 %%o %s %s %d' % (hx(self.energy()), bc_txt(r.choice(self.bc)), r.choice([0, 1, 4])), any_
            return 'eve %%o %s %s %d' % (hx(self.energy()), self.sides(), r.choice([0, 1, 4])), any_
        if label == 'minimum':
            return None if k in ('sl', 'per') else ('min %o', any_)
        if label == 'evaluate':
            n = r.choice([1, 2, 5])
            return 'eval %%f %d %s' % (n, ' '.join(hx(self.ex()) for _ in range(n))), any_
        if label in ('evaluate array', 'unsorted'):
            n = r.choice([0, 1, 3, 8]) if label != 'unsorted' else r.choice([2, 3, 6])
            xs = [self.ex() for _ in range(n)]
            if k == 'half':
                xs.sort()
                if label == 'unsorted':
                    i = r.randrange(n - 1)
                    if xs[i] == xs[i + 1]: xs[i + 1] = math.nextafter(xs[i + 1], math.inf)
                    xs[i], xs[i + 1] = xs[i + 1], xs[i]
                    if xs[i] <= xs[i + 1]: return None
                elif n > 1 and r.random() < .4: xs[1] = xs[0]
                v = sorted(set(xs))
                return 'evala %%f %d %s' % (n, ' '.join(map(hx, xs))), dict(t='array', x=[v.index(x) for x in xs])
            if label == 'unsorted': return None
            return 'evala %%f %d %s' % (n, ' '.join(map(hx, xs))), any_
        raise ValueError(label)

    def ex(self):
        r = self.rng
        lo = -self.hi if self.kind == 'half' else self.lo
        return r.choice([lo, self.hi, 0. if lo < 0 < self.hi else lo, lo + r.random() * (self.hi - lo), lo + r.random() * (self.hi - lo), self.hi + 1.])


class Session:
    """script of a session; records for every event the request it answers.  Eigenfunctions get unique names."""

    def __init__(self, plan):
        self.plan = plan
        self.script = list(plan.fns)
        self.req = []          # per event: (key, shape, text)
        self.live = []         # (name, definition)
        self.owner = {}
        self.n = 0

    def emit(self, line, key, shape):
        self.script.append(line)
        self.req.append((key, shape, line[:60]))

    def construct(self, o):
        self.emit(self.plan.build(o), 'construct', dict(t='any'))

    def samples(self, o):
        self.emit('samples ' + o, None, dict(t='samples'))

    def drop_object(self, o):
        # an eigenfunction refers to the object it was obtained from
        for n in [n for n, d in self.live if self.owner[n] == o]: self.emit('dropef ' + n, None, dict(t='any'))
        self.live = [(n, d) for n, d in self.live if self.owner[n] != o]
        self.emit('drop ' + o, None, dict(t='any'))

    def step(self, o, label):
        """performs one request of the label; False if the class has no such request"""
        if label == 'drop':
            if not self.live: return False
            n, _ = self.live.pop(self.plan.rng.randrange(len(self.live)))
            self.emit('dropef ' + n, None, dict(t='any'))
            return True
        q = self.plan.request(label)
        if q is None: return False
        cmd, shape = q
        if label in ('evaluate', 'evaluate array', 'unsorted'):
            if not self.live: return False
            n, d = self.plan.rng.choice(self.live)
            self.emit(cmd.replace('%f', n), d + '|' + cmd, shape)
            return True
        w = cmd.split()
        if w[0] in ('ep', 'ep1', 'epE', 'perf', 'ef', 'ef1'):
            self.n += 1
            name = '%s%d_' % (w[1], self.n)
            w[1] = name
            cmd2 = ' '.join(w)
            self.emit(cmd2.replace('%o', o), cmd, shape)
            self.owner[name] = self.owner[name + '0'] = o
            valid = shape['t'] == 'any' or shape['t'] == 'range' and 0 <= shape['i'][0] < shape['i'][1]
            if valid and (w[0] in ('ep', 'ep1') or w[0] in ('ef', 'ef1')) and self.plan.kind != 'per':
                # names: ef stores under its name, ep under name<k>
                if w[0] in ('ef', 'ef1'): self.live.append((name, cmd))
                else: self.live.append((name + '0', cmd))
            elif valid and w[0] == 'ep': self.live.append((name + '0', cmd))
            return True
        self.emit(cmd.replace('%o', o), cmd, shape)
        return True

    def par(self, threads, o, labels):
        """requests (no eigenfunctions are created or dropped) on several threads"""
        lines, req = [], []
        for l in labels:
            q = self.plan.request(l)
            if q is None or q[0].split()[0] in ('ep', 'ep1', 'epE', 'perf', 'ef', 'ef1'): continue
            cmd, shape = q
            if l in ('evaluate', 'evaluate array', 'unsorted'):
                if not self.live: continue
                n, d = self.plan.rng.choice(self.live)
                lines.append(cmd.replace('%f', n))
                req.append((d + '|' + cmd, shape))
            else:
                lines.append(cmd.replace('%o', o))
                req.append((cmd, shape))
        if not lines: return
        self.script.append('par %d %d' % (threads, len(lines)))
        for l, (key, shape) in zip(lines, req):
            self.script.append(l)
            for t in range(threads): self.req.append((key, shape, 'par ' + l[:56]))

    def encode(self, ev, done, prefix=''):
        if len(ev) != len(self.req): raise Bad('events %d of %d' % (len(ev), len(self.req)))
        out = []
        for e, (key, shape, text) in zip(ev, self.req):
            if shape['t'] == 'samples':
                if 'sc' not in e: raise Bad('samples')
                out.append(dict(q='', t='samples', k='ok', a='', s=text, n=[min(int(e[f]), 10 ** 6) for f in ('sc', 'sl', 'so')]))
                continue
            a = {x: y for x, y in e.items() if x not in ('case', 'i', 'ev', 'q', 't', 'exc')}
            k = 'exc' if 'exc' in e else 'bad' if 'bad' in e else 'ok'
            if k == 'exc' and ('bad_alloc' in e['exc'] or e['exc'] == 'unknown' or 'map::at' in e['exc']): k = 'bad'
            d = dict(q=key if key is not None else 'none ' + text, k=k, a=hashlib.sha256(json.dumps(a, sort_keys=True).encode()).hexdigest()[:20], s=text)
            d.update(shape)
            out.append(d)
        return out
