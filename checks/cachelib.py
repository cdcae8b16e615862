"""Read sequences on one cached object for C23 and C25."""
from vlib import *


def seqs(c, kind):
    # sequential reads, positional reads and seeks of one cached object
    k = dict(WithBad=False, WithSlice=False, SliceFrom={0}, MaxParts=1, Kinds={q(kind)}, Single=False)
    ts = c.gen('ObjRead', dict(k, MaxSize=6, MaxOff=8, MaxLen=6, MaxOps=12), simulate=c.pick(400, 6000), depth=14)
    ts += c.gen('ObjRead', dict(k, MaxSize=30, MaxOff=33, MaxLen=20, MaxOps=30), simulate=c.pick(200, 3000), depth=32)
    c.drive('cache', 'objreads', [dict(t, unit=[1, 16, 500][i % 3], bsize=[1, 2, 3, 8, 40][i % 5], window=[0, 2][i % 2], warm=True)
                                  for i, t in enumerate(ts)], jobs=7)
