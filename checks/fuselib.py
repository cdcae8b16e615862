"""Shared generation of file system requests from spec/Fuse.tla."""
import random

from vlib import q
from disclib import S, SIM as DISC, TINY as DTINY, TARGETS, NAMES, few_names

TINY = dict(DTINY, Absent=S('s9'), MaxReq=3, MaxForget=2, Faults=S('meta', 'src'), Focus=q('refs'))
INV = ['Positive', 'HandlesOK', 'Lives', 'ReadsOpen']


def sim(c, n, **kw):
    k = dict(DISC, ExtNames=set(), BadNames=set(), Dots=set(), Rules=S('portable'), MaxDepth=3, MaxOps=7, NumObjs=3, Sizes=set(range(11)), Styles=S('abs', 'sim'),
             Bulk={5, 40}, Names=few_names(c, n), Absent=S('s9', 'l3', 'g2'), MaxReq=60, MaxForget=4, Faults=set(), Focus=q('refs'))
    return dict(k, **kw)


def vary(c, traces):
    r = random.Random(c.seed * 31 + len(traces))
    for i, t in enumerate(traces):
        t.update(seed=r.randrange(1 << 30), conc=i % 2 == 1, cache='nop' if i % 3 else 'memwide', out='path', declared=i % 4 == 0, bsize=4096)
    return traces
