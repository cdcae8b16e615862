"""Reading back burned files.

TECHNIQUE: TLA+ (spec/Disc.tla): trees of files over source objects are generated by TLC (all size classes, several
paths on one object, every URL style); each disc is burned and loaded by the real code and every file is read by path,
by extent and through the image at all boundary ranges, and compared with the object's bytes.

LEVEL: bounded model checking of the tree model; sampled replay over size classes, URL styles, cache modes and
output locations.
"""
from disclib import *


def run(c):
    contract(c)
    one = c.gen('Disc', dict(TINY, Names=S('s1'), MaxDepth=1, MaxOps=1, Sizes=set(range(12)), Styles=ABS_STYLES, Targets=set()))
    cases = []
    for k, cache in enumerate(('nop', 'mem', 'memwide', 'disk')):
        cases += knobs([dict(t) for t in one], ['read'], caches=(cache,), start=k)
    n = c.pick(150, 2000)
    for k in range(2):
        cases += knobs(c.gen('Disc', dict(SIM, Names=few_names(c, k), BadNames=set(), Bulk={3, 12}, MaxDepth=3), simulate=n, seed=c.seed * 10 + k),
                       ['read'], caches=('mem', 'disk', 'memwide', 'mem', 'nop'), outs=('path', 'ram', 'file', 'esc', 'ver'))
    cases += knobs(c.gen('Disc', dict(SIM, Names=few_names(c, 3), BadNames=set(), Bulk={3}, MaxDepth=3, Styles=REL_STYLES), simulate=c.pick(60, 600)),
                   ['read'], caches=('mem', 'disk'), outs=('rel', 'http', 'path'))
    short = c.gen('Disc', dict(SIM, Names=S('s1', 's2', 's3'), BadNames=set(), Dots=set(), Bulk=set(), MaxDepth=2, MaxOps=4, Sizes={1, 4, 6, 7},
                               Styles=S('abs', 'path', 'http', 'ram')), simulate=c.pick(60, 500))
    cases += knobs(short, ['shrunk'], caches=('nop', 'mem', 'disk', 'memwide'))
    c.drive('disc', 'disc', cases, jobs=7, case_timeout=60)
