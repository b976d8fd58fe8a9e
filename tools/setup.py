"""Prepares the framework: compiles the arithmetic overrides (the checks do so too when needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verif
print('overrides:', verif.fast_arithmetic())
