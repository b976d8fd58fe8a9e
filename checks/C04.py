import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from propplan import *


def main():
    chk = Check('C04')
    N = 3000 if chk.thorough else 400
    plan = fixed_problems()
    while len(plan) < N: plan.append(random_problem(chk.rng))
    add_props(chk, plan)
    chk.run()


fail_on_error(main)
