"""Lookups do not depend on earlier lookups.

TECHNIQUE: TLA+ (spec/Walker.tla): lookup as a function of the tree alone, and a model of the walker's entry cache that TLC checks to
be transparent. Trees and lookup sequences generated from the same module are replayed on one real walker over a real image; every
answer is compared with the specified one and with a fresh walker's.

LEVEL: bounded model checking of the cache model; exhaustive small sequences and sampled long ones on the real walker.
"""
from walklib import *


def run(c):
    c.model_check('Walker', dict(TINY, MaxLooks=2), INV, view='View')
    cases = c.gen('Walker', dict(TINY, MaxDepth=2, MaxAdds=c.pick(1, 2), MaxLooks=2, Absent=set(), Names=S('s1', 's3')))
    n = c.pick(250, 4000)
    cases += vary(c.gen('Walker', dict(SIM, Links=0), simulate=n))
    cases += vary(c.gen('Walker', dict(SIM, Links=1, MaxLooks=60), simulate=n, seed=c.seed + 1000))
    cases += vary(c.gen('Walker', dict(SIM, Links=1, MaxDepth=4, Names=S('s1', 'g1', 'w7')), simulate=n // 2, seed=c.seed + 2000))
    cases += vary(c.gen('Walker', dict(SIM, Links=1, MaxDepth=4, MaxAdds=14, MaxLooks=60, Absent=set(), Names=toks('c', 5)), simulate=n // 2, seed=c.seed + 4000))
    cases += vary(c.gen('Walker', dict(SIM, Names=toks('c', 12)), simulate=n // 4, seed=c.seed + 5000))
    c.drive('disc', 'walk', cases, jobs=7, case_timeout=60)
