import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from session import *

ALL = ('values', 'pairs', 'window', 'propagate', 'matching', 'function', 'error', 'minimum', 'evaluate', 'evaluate array')
BAD = ('outside', 'negative', 'reversed', 'asymmetric', 'unsorted')


def main():
    chk = Check('C03')
    rng = chk.rng
    hist = [h for h in chk.behaviours('Session') if not any(l in BAD for l in h)]
    N = 5000 if chk.thorough else 800
    for n in range(N):
        kind = KINDS[n % 4]
        plan = Plan(kind, rng, jumps=rng.choice([True, None]) if kind != 'sl' else None)
        s = Session(plan)
        s.construct('o')
        s.samples('o')
        for h in rng.sample(hist, 8):
            for l in h: s.step('o', l)
            s.samples('o')
        for l in rng.sample(ALL, len(ALL)): s.step('o', l)
        s.samples('o')
        chk.add(s.script, lambda ev, done, s=s: [('SessionTrace', dict(j=s.plan.kind, e=s.encode(ev, done)))],
                harness=HARNESS[kind], timeout=30, desc=dict(kind=kind, problem=plan.P.describe(), tol=plan.tol, uniform=plan.uni))
    chk.run()


fail_on_error(main)
