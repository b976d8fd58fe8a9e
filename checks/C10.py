import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from session import *


def main():
    chk = Check('C10')
    rng = chk.rng
    hist = chk.behaviours('Session')
    hist = [h for h in hist if not any(l in ('outside', 'negative', 'reversed', 'asymmetric', 'unsorted') for l in h)]
    N = 5000 if chk.thorough else 900
    for n in range(N):
        kind = KINDS[n % 4]
        threads = n % 13 == 5   # data races (ThreadSanitizer) on a part of the sessions
        plan = Plan(kind, rng)
        s = Session(plan)
        s.construct('o')
        hs = rng.sample(hist, 4 if threads else 9)
        for h in hs[:len(hs) // 3]:
            for l in h: s.step('o', l)
        s.construct('u')   # the same problem again
        for h in hs[len(hs) // 3:2 * len(hs) // 3]:
            for l in h: s.step(rng.choice('ou'), l)
        s.par(4, 'o', ['values', 'window', 'propagate', 'matching', 'error', 'minimum', 'evaluate', 'evaluate array', 'evaluate', 'propagate'])
        if rng.random() < .5: s.drop_object('u')
        for h in hs[2 * len(hs) // 3:]:
            for l in h: s.step('o', l)
        chk.add(s.script, lambda ev, done, s=s: [('SessionTrace', dict(j=s.plan.kind, e=s.encode(ev, done)))],
                harness='tsan' if threads else HARNESS[kind], timeout=120 if threads else 30, desc=dict(kind=kind, problem=plan.P.describe(), tol=plan.tol, uniform=plan.uni))
    chk.run()


fail_on_error(main)
