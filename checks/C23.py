"""The memory cache is transparent.

TECHNIQUE: TLA+ (spec/CacheReads.tla): histories of reads of several objects with source failures and recoveries, all
short ones and sampled long ones, come from TLC with the specified response of every read; they are replayed through the
real memory cache over recording sources, with pools of one block upwards, with read-ahead, and by several readers at
once. spec/MemCache.tla model-checks the buffer protocol itself (right bytes under every interleaving).

LEVEL: exhaustive for short histories of small objects and for the protocol model; sampled beyond.
"""
from vlib import *
from cachelib import seqs

BASE = {'NumObjs': 2, 'MaxSize': 9, 'Bsizes': {1, 2, 3, 4}, 'MaxLen': 8, 'MaxOps': 14, 'WithFault': True, 'Durable': False,
        'Meddling': {q('reopen'), q('resize')}, 'Sampled': True}


def vary(c, ts, **kw):
    out = []
    for k, t in enumerate(ts):
        d = dict(t, unit=[1, 16, 512][k % 3], bcount=[1, 2, 3, 5, 50][k % 5], window=[0, 0, 1, 3, 9][(k // 2) % 5],
                 tokens=[1, 2, 8][(k // 3) % 3], conc=0, jitter=0, cut=k % 7 < 2)
        if d['unit'] == 16:
            d['jitter'] = 3 * (k % 2)
        out.append(dict(d, **kw))
    return out


def run(c):
    small = dict(BASE, NumObjs=1, MaxSize=3, Bsizes={1, 2}, MaxLen=3, MaxOps=2, Sampled=False, Meddling={q('resize')})
    c.model_check('CacheReads', dict(small, MaxOps=c.pick(2, 3), MaxSize=c.pick(3, 2)), ['ReadsInside', 'OnlyBadFail'])
    c.model_check('MemCache', {'Readers': {1, 2, 3}, 'Blocks': {1, 2, 3}, 'Cap': 2, 'MaxReads': c.pick(4, 6), 'MaxFails': 1},
                  ['RightBytes', 'Exclusive'], view='View')
    cases = vary(c, c.gen('CacheReads', dict(small, MaxOps=2)))
    n = c.pick(800, 10000)
    cases += vary(c, c.gen('CacheReads', BASE, simulate=n))
    cases += vary(c, c.gen('CacheReads', dict(BASE, NumObjs=3, MaxSize=40, Bsizes={1, 2, 5, 7, 16}, MaxLen=30, MaxOps=30), simulate=n // 2))
    quiet = dict(BASE, WithFault=False, NumObjs=3, MaxSize=20, MaxLen=12, MaxOps=30, Meddling=set())
    cases += vary(c, c.gen('CacheReads', quiet, simulate=n // 4), conc=6)
    c.drive('cache', 'memreads', cases, jobs=7, case_timeout=60)
    seqs(c, 'mem')
