"""Check framework: harness execution, encoding, TLC runs, verdicts, evidence."""
import os, sys, json, time, random, pickle, traceback, subprocess, shutil, re, tempfile, concurrent.futures as cf
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from fix import enc, scaled, expo, frac
from ray import OutOfRange

ROOT = build.ROOT
SPEC = os.path.join(ROOT, 'spec')
NCPU = 8


class NonFinite(Exception):
    pass


class Bad(Exception):
    """recorded behaviour that has no counterpart in the specification (crash, time-out, exception, malformed)"""


def hexnum(s):
    t = s.strip().lower()
    if 'nan' in t or 'inf' in t:
        raise NonFinite(s)
    m = re.match(r'^(-?)0x([0-9a-f]*)\.?([0-9a-f]*)p([+-]?\d+)$', t)
    if not m:
        raise NonFinite(s)
    mant = int(m.group(2) + m.group(3) or '0', 16)
    e = int(m.group(4)) - 4 * len(m.group(3))
    f = Fraction(mant) * (Fraction(2) ** e)
    return -f if m.group(1) else f


def conv(v):
    """convert hex strings in event values to Fractions"""
    if isinstance(v, list):
        return [conv(x) for x in v]
    if isinstance(v, str):
        return hexnum(v)
    return v


def hx(x):
    """number -> script token (exact double)"""
    if isinstance(x, Fraction):
        x = float(x)
    return float(x).hex()


class Scratch:
    def __init__(self):
        base = os.path.join(ROOT, 'build', 'tmp')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=base)

    def path(self, n):
        return os.path.join(self.dir, n)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run_harness(exe, scripts, scratch, timeout=20, env=None):
    """scripts: {id: [lines]} -> {id: (events, done)}"""
    ids = list(scripts)
    shards = [ids[i::NCPU] for i in range(NCPU)]
    tag = '%d_%d' % (os.getpid(), random.randrange(1 << 30))

    def one(k):
        if not shards[k]:
            return []
        f, o = scratch.path('s%s_%d' % (tag, k)), scratch.path('o%s_%d' % (tag, k))
        with open(f, 'w') as h:
            for i in shards[k]:
                h.write('case %s %g\n' % (i, timeout) + '\n'.join(scripts[i]) + '\nend\n')
        e = dict(os.environ)
        if env: e.update(env)
        r = subprocess.run([exe, f, o], capture_output=True, env=e)
        if r.returncode:
            raise RuntimeError('harness failed: %s %s' % (r.returncode, r.stderr[-500:]))
        with open(o) as h:
            res = [json.loads(l) for l in h]
        os.unlink(f)
        os.unlink(o)
        return res
    with cf.ThreadPoolExecutor(NCPU) as ex:
        parts = list(ex.map(one, range(NCPU)))
    out = {}
    for p in parts:
        for e in p:
            d = out.setdefault(e['case'], ([], []))
            (d[1] if e['ev'] == 'done' else d[0]).append(e)
    return {i: (out[i][0], out[i][1][0]) for i in out}


class TlcError(Exception):
    pass


TLAJARS = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar']


def fast_arithmetic():
    """compiles spec/java/FixFast.java (compiled evaluation of the limb arithmetic); None -> pure TLA+ evaluation"""
    if os.environ.get('VERIF_PURE'): return None
    src = os.path.join(SPEC, 'java', 'FixFast.java')
    with open(src, 'rb') as h:
        d = os.path.join(build.BUILD, 'java_' + build.digest(h.read()))
    if not os.path.exists(os.path.join(d, 'FixFast.class')):
        os.makedirs(build.BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=build.BUILD)
        r = subprocess.run(['javac', '-nowarn', '-cp', TLAJARS[0], '-d', tmp, src], capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(tmp)
            return None
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return d


def tlc(module, scratch, env=None, cfg=None, workers=NCPU, args=(), timeout=840, xss='64m', heap='6g', pure=False):
    """runs TLC; returns dict(states, distinct, out, ok, violated)"""
    md = tempfile.mkdtemp(dir=scratch.dir)
    e = dict(os.environ)
    if env: e.update({k: str(v) for k, v in env.items()})
    fast = None if pure else fast_arithmetic()
    cmd = ['java', '-Xss' + xss, '-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + md]
    if fast: cmd += ['-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FixFast']
    cmd += ['-cp', ':'.join(TLAJARS + ([fast] if fast else [])), 'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(md, ignore_errors=True)
        raise TlcError('TLC timeout in ' + module)
    shutil.rmtree(md, ignore_errors=True)
    out = r.stdout
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out.replace('\n', ' '))
    ms = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    gen, dist = (int(x.replace(',', '')) for x in ms[-1]) if ms else (0, 0)
    ok = 'Model checking completed. No error has been found' in out or 'Finished simulating' in out or ('-simulate' in args and 'Error:' not in out)
    violated = re.search(r'(Invariant \w+ is violated|Temporal properties were violated|Action property .* is violated|property \w+ is violated|Deadlock reached)', out)
    if not ok and not violated:
        i = out.find('Error')
        raise TlcError('%s: %s' % (module, out[i:i + 2500] if i >= 0 else out[-2500:] + r.stderr[-1000:]))
    return dict(states=gen, distinct=dist, out=out, ok=ok and not violated, violated=violated.group(0) if violated else None, wall=time.time() - t)


def rejects(out):
    """parse PrintT(<<"REJECT", id, details>>) output (possibly wrapped over several lines)"""
    res = []
    # join wrapped lines
    txt = out
    for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",', txt):
        # find matching end
        i = m.start()
        depth = 0
        j = i
        while j < len(txt) - 1:
            if txt[j:j + 2] == '<<':
                depth += 1
                j += 2
                continue
            if txt[j:j + 2] == '>>':
                depth -= 1
                j += 2
                if depth == 0: break
                continue
            j += 1
        res.append((m.group(1), re.sub(r'\s+', ' ', txt[i:j])))
    return res


def traces(out):
    """the values printed by PrintT(<<"TRACE", ToJson(x)>>), sorted"""
    res = []
    for m in re.finditer(r'<<\s*"TRACE",\s*("(?:[^"\\]|\\.)*")\s*>>', out):
        res.append(json.loads(json.loads(m.group(1).replace('\n', ' '))))
    res.sort(key=lambda x: json.dumps(x))
    return res


class Group:
    """a harness script plus the encoding of its events into specification cases"""
    def __init__(self, gid, script, encode, harness='core', timeout=20, desc=None):
        self.id, self.script, self.encode, self.harness, self.timeout, self.desc = gid, script, encode, harness, timeout, desc


class Chains:
    """registry of step chains (problems) of the ray machine"""
    def __init__(self):
        self.chains = []

    def add(self, chain):
        self.chains.append(chain)
        chain.pid = len(self.chains)
        return chain


class Steps:
    def __init__(self, steps): self.steps = steps


def status_case(gid, status):
    return ('status', dict(id=gid, j='status', runs=[], o=dict(status=status)))


def with_chains(mod):
    return mod in ('RayTrace', 'RayHiTrace', 'CoupledTrace')


def chain_refs(c):
    return [c] if 'p' in c else c.get('runs', [])


class Check:
    def __init__(self, pid, harness_default='core'):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv: self.tier = 'thorough'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s-%d-%s' % (pid, self.seed, self.tier))
        self.t0 = time.time()
        self.scratch = Scratch()
        self.groups = []
        self.states = self.transitions = self.traces = 0
        self.cover = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.known = []
        self.harness_default = harness_default
        self.chains = {}
        self.timing = {}

    # ---- model runs (design level)
    def model(self, module, cfg=None, env=None, **kw):
        r = tlc(module, self.scratch, cfg=cfg, env=env, **kw)
        self.states += r['distinct']
        self.transitions += r['states']
        self.cover.setdefault('models', []).append(dict(module=module, cfg=cfg or module + '.cfg', states=r['distinct'], transitions=r['states'], wall=round(r['wall'], 1)))
        if not r['ok']:
            raise TlcError('design model %s: %s' % (module, r['violated']))
        return r

    def behaviours(self, module, cfg=None, env=None, **kw):
        """runs a design model and returns the behaviours it prints as <<"TRACE", ToJson(x)>>"""
        r = self.model(module, cfg, env, **kw)
        return traces(r['out'])

    def add(self, script, encode, harness=None, timeout=20, desc=None, gid=None):
        g = Group(gid or 'g%d' % (len(self.groups) + 1), script, encode, harness or self.harness_default, timeout, desc)
        self.groups.append(g)
        return g

    def chain(self, ch):
        if not hasattr(ch, 'pid'):
            ch.pid = len(self.chains) + 1
            self.chains[ch.pid] = ch
        return ch

    # ---- conformance
    def execute(self, groups):
        byh = {}
        for g in groups:
            byh.setdefault((g.harness, g.timeout), []).append(g)
        res = {}
        for (h, to), gs in byh.items():
            t = time.time()
            exe = build.build(h)
            self.timing['build_' + h] = round(self.timing.get('build_' + h, 0) + time.time() - t, 1)
            t = time.time()
            env = dict(HX_NOMEMLIMIT='1', TSAN_OPTIONS='halt_on_error=0 exitcode=66 report_signal_unsafe=0') if h == 'tsan' else None
            res.update(run_harness(exe, {g.id: g.script for g in gs}, self.scratch, to, env))
            self.timing['run_' + h] = round(self.timing.get('run_' + h, 0) + time.time() - t, 1)
        return res

    def encode(self, groups, recorded):
        """-> {module: [cases]}; every case id starts with its group id.  Runs in forked workers."""
        if len(groups) <= 8:
            cases, _ = self.encode_some(groups, recorded)
            return cases
        base = len(self.chains)
        parts = [groups[i::NCPU] for i in range(NCPU)]
        pipes = []
        for p in parts:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        cases, steps = self.encode_some(p, recorded)
                        data = pickle.dumps(('ok', cases, {k: v for k, v in steps.items() if k > base}))
                    except BaseException:
                        data = pickle.dumps(('error', traceback.format_exc(), None))
                    with os.fdopen(w, 'wb') as h:
                        h.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            pipes.append((pid, r))
        out = {}
        err = None
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as h:
                kind, cases, steps = pickle.loads(h.read())
            os.waitpid(pid, 0)
            if kind == 'error':
                err = cases
                continue
            remap = {k: k for k in range(1, base + 1)}
            for k in sorted(steps):
                remap[k] = len(self.chains) + 1
                self.chains[remap[k]] = Steps(steps[k])
            for mod, cs in cases.items():
                for c in cs:
                    for q in chain_refs(c): q['p'] = remap[q['p']]
                out.setdefault(mod, []).extend(cs)
        if err: raise RuntimeError(err)
        return out

    def pmap(self, fn, items):
        """fn over the items in forked workers (preparation of problems); results in order"""
        items = list(items)
        if len(items) <= 8: return [fn(x) for x in items]
        pipes = []
        for k in range(NCPU):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try: data = pickle.dumps(('ok', [fn(x) for x in items[k::NCPU]]))
                    except BaseException: data = pickle.dumps(('error', traceback.format_exc()))
                    with os.fdopen(w, 'wb') as h: h.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            pipes.append((pid, r))
        out, err = [None] * len(items), None
        for k, (pid, r) in enumerate(pipes):
            with os.fdopen(r, 'rb') as h: kind, v = pickle.loads(h.read())
            os.waitpid(pid, 0)
            if kind == 'error': err = v
            else: out[k::NCPU] = v
        if err: raise RuntimeError(err)
        return out

    def encode_some(self, groups, recorded):
        cases = {}
        for g in groups:
            ev, done = recorded[g.id]
            try:
                if done['status'] != 'ok':
                    raise Bad(done['status'] + ':' + str(done['code']))
                cs = g.encode(ev, done)
            except NonFinite as e:
                cs = [('RayTrace', dict(j='status', runs=[], o=dict(status='nonfinite')))]
            except (Bad, OutOfRange) as e:
                cs = [('RayTrace', dict(j='status', runs=[], o=dict(status='bad: ' + str(e)[:200])))]
            if not cs:
                cs = [('RayTrace', dict(j='status', runs=[], o=dict(status='ok')))]
            for k, (mod, c) in enumerate(cs):
                if 'id' not in c: c['id'] = '%s.%d' % (g.id, k)
                if mod == 'RayTrace': c.setdefault('runs', [])
                cases.setdefault(mod, []).append(c)
        return cases, {k: c.steps for k, c in self.chains.items()}

    def judge(self, cases, count=True):
        """runs the trace specifications; returns {case id: detail} of rejected cases"""
        rej = {}
        for mod, cs in cases.items():
            # batches that fit in the memory of TLC
            limit = 48e6
            batch, size, seen = [], 0, set()
            for c in cs:
                n = len(json.dumps(c, separators=(',', ':')))
                if with_chains(mod):
                    for p in {r['p'] for r in chain_refs(c)} - seen:
                        seen.add(p)
                        n += 60 + len(json.dumps(self.chains[p].steps, separators=(',', ':')))
                if batch and size + n > limit:
                    rej.update(self.judge_batch(mod, batch, count))
                    batch, size, seen = [], 0, set()
                batch.append(c)
                size += n
            if batch: rej.update(self.judge_batch(mod, batch, count))
        return rej

    def judge_batch(self, mod, cs, count):
        rej = {}
        t = time.time()
        cf_ = self.scratch.path(mod + '_cases.ndjson')
        env = dict(RAY_CASES=cf_)
        if with_chains(mod):
            used = sorted({r['p'] for c in cs for r in chain_refs(c)})
            remap = {p: i + 1 for i, p in enumerate(used)}
            pf = self.scratch.path(mod + '_probs.ndjson')
            with open(pf, 'w') as h:
                for p in used:
                    h.write(json.dumps(dict(s=self.chains[p].steps), separators=(',', ':')) + '\n')
                if not used: h.write('{"s":[]}\n')
            env['RAY_PROBS'] = pf
            cs = [dict(c, p=remap[c['p']]) if 'p' in c else dict(c, runs=[dict(r, p=remap[r['p']]) for r in c['runs']]) for c in cs]
            # long cases first: better balance over the workers
            cs.sort(key=lambda c: -max([0] + [r['i1'] - r['i0'] for r in chain_refs(c)]))
        with open(cf_, 'w') as h:
            for c in cs:
                h.write(json.dumps(c, separators=(',', ':')) + '\n')
        r = tlc(mod, self.scratch, env=env)
        self.timing['tlc_' + mod] = round(self.timing.get('tlc_' + mod, 0) + time.time() - t, 1)
        if count:
            self.states += r['distinct']
            self.transitions += r['states']
            self.traces += len(cs)
        if not r['ok']:
            raise TlcError('%s: %s' % (mod, r['violated']))
        if r['distinct'] < 2 * len({c['id'] for c in cs}):
            raise TlcError('%s: not every case was explored (%d states, %d cases)' % (mod, r['distinct'], len(cs)))
        for i, d in rejects(r['out']):
            rej[i] = d
        return rej

    def run(self, known=()):
        """execute all groups, judge, confirm; known: predicates (case id, desc, detail) -> text for listed findings"""
        recorded = self.execute(self.groups)
        t = time.time()
        cases = self.encode(self.groups, recorded)
        self.timing['encode'] = round(time.time() - t, 1)
        for mod, cs in cases.items():
            d = self.cover.setdefault('cases_by_judge', {})
            for c in cs:
                k = mod + ':' + c.get('j', '')
                d[k] = d.get(k, 0) + 1
            ids = [c['id'] for c in cs]
            assert len(set(ids)) == len(ids), 'duplicate case ids'
        if self.groups:
            for g in self.rng.sample(self.groups, min(3, len(self.groups))):
                self.samples.append(dict(group=g.id, desc=g.desc, script=[s[:300] for s in g.script[:12]], events=[json.dumps(e)[:400] for e in recorded[g.id][0][:4]]))
        rej = self.judge(cases)
        if rej:
            # confirm with a fresh execution
            gids = sorted({self.group_of(i) for i in rej})
            byid = {g.id: g for g in self.groups}
            gs = [byid[i] for i in gids]
            rec2 = self.execute(gs)
            cases2 = self.encode(gs, rec2)
            rej2 = self.judge(cases2, count=False)
            allcases = {c['id']: (m, c) for m, cs in cases2.items() for c in cs}
            for i, d in rej2.items():
                g = byid[self.group_of(i)]
                self.violations.append((i, g, d, allcases[i], rec2[g.id]))
        self.finish(known)

    @staticmethod
    def group_of(cid):
        return cid.split('.')[0]

    def finish(self, known=()):
        kf = load_known(self.pid)
        new = []
        for v in self.violations:
            i, g, d = v[0], v[1], v[2]
            hit = [k for k in kf if g.desc and k['match'] in json.dumps(g.desc)]
            if hit: self.known.append((hit[0], i))
            else: new.append(v)
        seen = set()
        for k, i in self.known:
            if k['match'] not in seen:
                seen.add(k['match'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['text']))
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.pid + '-'): os.unlink(os.path.join(rd, f))
        for n, (i, g, d, (mod, c), rec) in enumerate(new[:20]):
            p = os.path.join(rd, '%s-%d.json' % (self.pid, n + 1))
            ch = {}
            for r in chain_refs(c):
                if r['p'] in self.chains: ch[r['p']] = getattr(self.chains[r['p']], 'steps', None)
            with open(p, 'w') as h:
                json.dump(dict(property=self.pid, case=i, rejected=d, desc=g.desc, harness=g.harness, script=g.script,
                               events=rec[0], done=rec[1], spec=mod, spec_case=c, chains=ch), h, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            if n < 6: print('   ', d[:220], '|', json.dumps(g.desc, default=str)[:200])
        self.evidence(len(new))
        self.scratch.close()
        print('%s: %s; %d groups, %d traces, %d states, %.1fs %s' % (self.pid, 'VIOLATED' if new else 'held', len(self.groups), self.traces, self.states, time.time() - self.t0, self.timing))
        sys.exit(1 if new else 0)

    def evidence(self, nviol):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ['none'], groups=len(self.groups), timing=self.timing)
        cov.update(self.cover)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=['TLC evaluates the specification correctly', 'problem definitions (Taylor coefficients) are encoded by tools/ray.py independently of /repo'],
                  wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, default=str)


def load_known(pid):
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f): return []
    with open(f) as h:
        return [k for k in json.load(h).get('findings', []) if k['property'] == pid]


def fail_on_error(fn):
    try:
        fn()
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
