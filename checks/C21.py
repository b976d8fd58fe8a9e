import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from verif import *
from session import *

BAD = ('outside', 'negative', 'reversed', 'asymmetric', 'unsorted')


def main():
    chk = Check('C21')
    rng = chk.rng
    hist = chk.behaviours('Session')
    mixed = [h for h in hist if any(l in BAD for l in h) and not all(l in BAD for l in h)]
    N = 5000 if chk.thorough else 800
    for n in range(N):
        kind = KINDS[n % 4]
        plan = Plan(kind, rng, pool=5)
        s = Session(plan)
        s.construct('o')
        for h in rng.sample(mixed, 12):
            for l in h: s.step('o', l)
        # every kind of invalid request, between valid ones
        for l in BAD * 2:
            s.step('o', rng.choice(['values', 'propagate', 'evaluate', 'evaluate array', 'error']))
            s.step('o', l)
        for l in ('values', 'propagate', 'matching', 'evaluate', 'evaluate array', 'pairs', 'window'): s.step('o', l)
        chk.add(s.script, lambda ev, done, s=s: [('SessionTrace', dict(j=s.plan.kind, e=s.encode(ev, done)))],
                harness=HARNESS[kind], timeout=30, desc=dict(kind=kind, problem=plan.P.describe(), tol=plan.tol, uniform=plan.uni))
    chk.run()


fail_on_error(main)
