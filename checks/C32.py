"""The mounted view equals the disc: lookups, attributes, listings and reads.

TECHNIQUE: TLA+ (spec/Fuse.tla): a burned disc, the kernel's requests and the answers to them while the disc's metadata or the
files' sources fail and recover. TLC generates discs and request histories, which are replayed on the real file system object
over the real disc; listings are read with many buffer sizes and resumed at every kind of offset.

LEVEL: exhaustive short histories of tiny discs; sampled long histories.
"""
from fuselib import *


def run(c):
    c.model_check('Fuse', dict(TINY, Names=S('s1'), MaxOps=1, MaxDepth=2, MaxReq=3, Faults=S('meta', 'late', 'src')), INV)
    cases = vary(c, c.gen('Fuse', dict(TINY, Names=S('s1'), MaxOps=1, MaxDepth=1, MaxReq=2, Faults=S('meta', 'src'))))
    for i in range(c.pick(6, 30)):
        cases += vary(c, c.gen('Fuse', sim(c, i + 50, Focus=q('view'), Bulk=c.pick({5, 40}, {5, 40, 150}), Faults=S('meta', 'late', 'src') if i % 2 else set()),
                               simulate=c.pick(40, 120), depth=250, seed=c.seed * 100 + i))
    c.drive('fuse', 'fuse', cases, jobs=7, case_timeout=60)
