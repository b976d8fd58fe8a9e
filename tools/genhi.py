"""Generates spec/RayHi.tla from spec/Ray.tla: the same ray machine with 32 decimals and 40 Taylor terms."""
import os, re
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
t = open(os.path.join(D, 'Ray.tla')).read()
t = t.replace('---- MODULE Ray ----', '---- MODULE RayHi ----\n(* GENERATED by tools/genhi.py from Ray.tla: 32 decimals, 40 Taylor terms. *)')
t = t.replace('EXTENDS Fix, TLC', 'EXTENDS FixHi, TLC').replace('NTerms == 22', 'NTerms == 40').replace('1..40 |->', '1..41 |->')
assert 'FixHi' in t and 'NTerms == 40' in t
open(os.path.join(D, 'RayHi.tla'), 'w').write(t)
