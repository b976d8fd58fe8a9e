"""Builds the harnesses from /repo's current working tree (content-addressed object cache in /verif/build)."""
import os, sys, hashlib, subprocess, glob, concurrent.futures as cf, fcntl
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MATSLISE_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SRC = os.path.join(REPO, 'matslise')


class BuildError(Exception):
    pass


def sources():
    r = []
    for d, dirs, files in os.walk(SRC):
        dirs[:] = [x for x in dirs if x not in ('js', 'pyslise')]
        r += [os.path.join(d, f) for f in files if f.endswith(('.cpp', '.h', '.hpp', '.inl', '.tpp', '.ipp'))]
    return sorted(r)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(f):
    with open(f, 'rb') as h:
        return h.read()


CXX = os.environ.get('VERIF_CXX', 'g++')
BASE = ['-std=gnu++17', '-DNDEBUG', '-DBOOST', '-I/usr/include/eigen3', '-I' + REPO, '-w', '-pthread']

# which library sources a harness needs; None = all.  Falls back to all when linking fails.
CONFIG = {
    'core': dict(src='hx_core.cpp', flags=['-O2'], skip=['matscs', 'liouville', 'periodic']),
    'per': dict(src='hx_core.cpp', flags=['-O2', '-DHX_PERIODIC'], skip=['matscs', 'liouville']),
    'sl': dict(src='hx_core.cpp', flags=['-O2', '-DHX_SL'], skip=['matscs', 'periodic']),
    'all': dict(src='hx_core.cpp', flags=['-O2', '-DHX_PERIODIC', '-DHX_SL'], skip=['matscs']),
    'tsan': dict(src='hx_core.cpp', flags=['-O1', '-g1', '-fsanitize=thread', '-DHX_PERIODIC', '-DHX_SL'], skip=['matscs']),
    'cs': dict(src='hx_cs.cpp', flags=['-O1', '-DWITH_MATSCS'], skip=['liouville', 'periodic', 'halfrange']),
    **{k: dict(src='hx_util.cpp', flags=['-O1', '-DHX_' + k.upper(), '-DMATSLISE_LONG_DOUBLE', '-DMATSLISE_QUADMATH'], skip=['.cpp'], libs=['-lquadmath'])
       for k in ('poly', 'leg', 'eta')},
    'prec': dict(src='hx_core.cpp', flags=['-O1', '-DMATSLISE_LONG_DOUBLE', '-DMATSLISE_QUADMATH'],
                 skip=['matscs', 'liouville', 'periodic'], libs=['-lquadmath']),
}


def build(name):
    """returns the path of the harness executable"""
    cfg = CONFIG[name]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        srcs = sources()
        alltext = {s: read(s) for s in srcs}
        hdr = digest(*[s[len(SRC):] + '\0' + hashlib.sha256(alltext[s]).hexdigest() for s in srcs if not s.endswith('.cpp')])
        incl = digest(*[hashlib.sha256(alltext[s]).hexdigest() for s in srcs])
        flags = BASE + cfg['flags']
        hsrc = os.path.join(ROOT, 'harness', cfg['src'])

        def lib(skip):
            return [s for s in srcs if s.endswith('.cpp') and not any(k in s[len(SRC):] for k in skip)]

        def compile_one(s):
            # .cpp files can include other .cpp files: key on everything when they do
            t = alltext.get(s) or read(s)
            key = hdr
            if b'.cpp"' in t:
                key = incl + hdr
            if s == hsrc:
                key += digest(read(os.path.join(ROOT, 'harness', 'hx.h')))
            o = os.path.join(BUILD, digest(key, t, s, ' '.join(flags), CXX) + '.o')
            if not os.path.exists(o):
                tmp = o + '.%d.tmp' % os.getpid()
                r = subprocess.run([CXX] + flags + ['-c', s, '-o', tmp], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError(s + '\n' + r.stderr[-3000:])
                os.rename(tmp, o)
            return o

        def attempt(skip):
            files = [hsrc] + lib(skip)
            # big ones first
            files.sort(key=lambda f: -('formulas' in f) * 3 - ('periodic' in f) * 3 - ('matscs/sector' in f) * 9)
            with cf.ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(compile_one, files))
            exe = os.path.join(BUILD, 'hx_' + name + '_' + digest(*sorted(objs)))
            if not os.path.exists(exe):
                tmp = exe + '.tmp'
                r = subprocess.run([CXX] + [f for f in flags if f.startswith('-f') or f == '-pthread'] + ['-o', tmp] + objs + cfg.get('libs', []), capture_output=True, text=True)
                if r.returncode:
                    raise BuildError('link\n' + r.stderr[-3000:])
                os.rename(tmp, exe)
            return exe
        try:
            return attempt(cfg['skip'])
        except BuildError as e:
            if cfg['skip'] and not str(e).startswith(hsrc):
                try:
                    return attempt([] if '-DWITH_MATSCS' in flags else ['matscs'])
                except BuildError:
                    pass
            raise
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    import time
    for n in sys.argv[1:]:
        t = time.time()
        print(build(n), '%.1fs' % (time.time() - t))
