"""Mounted-file-system inodes and handles live exactly as long as referenced.

TECHNIQUE: TLA+: spec/FuseRefs.tla (the server's inode table under concurrent lookups and forgets, checked exhaustively) and
spec/Fuse.tla (a burned disc, the kernel's references and handles, and the answer to every request). TLC generates request
histories, which are replayed on the real file system object, one at a time and in concurrent groups whose answers do not
depend on the order.

LEVEL: exhaustive over the small table model and short histories; sampled long histories on real discs.
"""
from fuselib import *


def run(c):
    c.model_check('FuseRefs', {'Inodes': {1, 2}, 'Threads': S('a', 'b', 'c'), 'MaxRefs': c.pick(3, 4)}, ['Usable', 'Dropped'])
    c.model_check('Fuse', dict(TINY, Targets=set(), Names=S('s1'), MaxOps=1, MaxReq=c.pick(4, 5), Faults=set()), INV)
    cases = vary(c, c.gen('Fuse', dict(TINY, Targets=set(), Names=S('s1'), MaxOps=1, MaxDepth=1, MaxReq=3, Faults=set())))
    for i in range(c.pick(6, 30)):
        cases += vary(c, c.gen('Fuse', sim(c, i, MaxReq=(60, 150)[i % 2]), simulate=c.pick(40, 120), depth=250, seed=c.seed * 100 + i))
    c.drive('fuse', 'fuse', cases, jobs=7, case_timeout=60, racy=True)
