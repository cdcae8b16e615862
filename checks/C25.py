"""The disk cache is transparent and durable.

TECHNIQUE: TLA+ (spec/CacheReads.tla with Durable): histories of reads of several objects, source failures, restarts,
changed block sizes and meddling with the cache directory (entries dropped, swapped, stripped of their key, replaced by
others) come from TLC with the specified response and the number of blocks that may be fetched; they are replayed through
the real disk cache in a scratch directory, alone and with other readers on the same directory, and with unusable
directories.

LEVEL: exhaustive for short histories of one small object; sampled beyond.
"""
from vlib import *
from cachelib import seqs

BASE = {'NumObjs': 2, 'MaxSize': 9, 'Bsizes': {1, 2, 3, 4}, 'MaxLen': 8, 'MaxOps': 16, 'WithFault': True, 'Durable': True,
        'Meddling': {q(x) for x in ('restart', 'resize', 'bsize', 'drop', 'swap', 'strip', 'rekey')}, 'Sampled': True}


def vary(ts, **kw):
    out = []
    for k, t in enumerate(ts):
        d = dict(t, unit=[1, 16, 512][k % 3], bcount=0, window=0, tokens=[1, 2, 8][(k // 3) % 3], conc=0, jitter=0, sync=True,
                 root=['c', 'deep/er/cache', 'with space', 'ünï'][k % 4], names=k // 2, broken='', cut=k % 7 < 2)
        if d['unit'] == 16:
            d['jitter'] = 3 * (k % 2)
        out.append(dict(d, **kw))
    return out


def run(c):
    small = dict(BASE, NumObjs=1, MaxSize=3, Bsizes={1, 2}, MaxLen=3, MaxOps=2, Sampled=False)
    c.model_check('CacheReads', dict(small, MaxOps=c.pick(2, 3), MaxSize=2), ['ReadsInside', 'OnlyBadFail'])
    cases = vary(c.gen('CacheReads', dict(small, MaxOps=2, MaxSize=2, MaxLen=2)))
    n = c.pick(500, 6000)
    cases += vary(c.gen('CacheReads', BASE, simulate=n))
    cases += vary(c.gen('CacheReads', dict(BASE, Meddling={q('restart'), q('resize'), q('bsize')}), simulate=n // 2))
    cases += vary(c.gen('CacheReads', dict(BASE, NumObjs=3, MaxSize=30, Bsizes={1, 2, 5, 7, 16}, MaxLen=20, MaxOps=24), simulate=n // 4),
                  sync=False, window=3)
    quiet = dict(BASE, WithFault=False, NumObjs=3, MaxSize=16, MaxLen=12, MaxOps=20)
    cases += vary(c.gen('CacheReads', dict(quiet, Meddling={q('restart'), q('drop'), q('bsize')}), simulate=n // 5), conc=5, window=2, sync=False)
    broken = c.gen('CacheReads', dict(BASE, Meddling={q('restart')}, MaxOps=6), simulate=60)
    for b in ('rootfile', 'v0file', 'dirs'):
        cases += vary(broken, broken=b)
    c.drive('cache', 'diskreads', cases, jobs=8, case_timeout=60)
    seqs(c, 'disk')
