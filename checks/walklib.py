"""Shared generation of lookups from spec/Walker.tla."""
from vlib import q
from disclib import S, toks

TINY = dict(Names=S('s1', 's3'), Absent=S('s2'), Dots=S('..'), MaxDepth=2, TDepth=1, MaxAdds=2, MaxLooks=1, Links=0, Sampled=False)
SIM = dict(TINY, Sampled=True, MaxAdds=8, MaxLooks=30, TDepth=3, MaxDepth=3, Dots=S('', '.', '..'), Absent=S('s2', 's4'),
           Names=S('s1', 's3', 's10', 'l1'))
INV = ['CacheSound', 'CacheTransparent', 'Agrees', 'NeverEscapes', 'LoopsNeedCycles', 'Spelling']


def vary(traces):
    for i, t in enumerate(traces):
        t['bulk'] = (0, 0, 7, 30)[i % 4]
        t['conc'] = i % 5 == 4
    return traces
