"""Symbolic links read back and resolve the POSIX way.

TECHNIQUE: TLA+ (spec/Walker.tla): POSIX resolution over trees with links, loops and dangling targets, model-checked for
independence of spelling and for never ending at a link when following. Link graphs and lookups generated from the module are replayed on
the real writer and walker. The long-target cases come from spec/Disc.tla.

LEVEL: bounded model checking of resolution; exhaustive over small link graphs and sampled over large ones on the real code.
"""
from walklib import *
from disclib import SIM as DISC, knobs, NAMES


def run(c):
    c.model_check('Walker', dict(TINY, Links=1, MaxDepth=1, TDepth=c.pick(1, 2), MaxAdds=2, MaxLooks=0), INV, view='View')
    cases = c.gen('Walker', dict(TINY, Links=1, MaxDepth=1, TDepth=c.pick(1, 2), MaxAdds=2, MaxLooks=1, Absent=set()))
    n = c.pick(400, 5000)
    cases += vary(c.gen('Walker', dict(SIM, Links=3), simulate=n))
    cases += vary(c.gen('Walker', dict(SIM, Links=3, Names=S('s1', 's3', 'w1', 'w9', 'g1', 'v1', 'w14', 'e2'), MaxDepth=2, TDepth=4, MaxAdds=10),
                        simulate=n, seed=c.seed + 1000))
    cases += vary(c.gen('Walker', dict(SIM, Links=3, Names=S('s1', 's3', 's10'), MaxDepth=2, TDepth=2, MaxAdds=5), simulate=n, seed=c.seed + 2000))
    cases += vary(c.gen('Walker', dict(SIM, Links=3, Names=toks('c', 12), Absent=set(), MaxDepth=2, TDepth=3, MaxAdds=12), simulate=n, seed=c.seed + 4000))
    c.drive('disc', 'walk', cases, jobs=7, case_timeout=60)
    discs = c.gen('Disc', dict(DISC, Names=NAMES, Sizes={1}, MaxDepth=3, MaxOps=10, Bulk={5}), simulate=c.pick(60, 1000), seed=c.seed + 3000)
    c.drive('disc', 'disc', knobs(discs, ['list']), jobs=7, case_timeout=60)
