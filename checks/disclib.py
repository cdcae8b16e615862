"""Shared generation of discs from spec/Disc.tla."""
from vlib import q

S = lambda *a: {q(x) for x in a}


def toks(p, n):
    return {q(p + str(i)) for i in range(1, n + 1)}


NAMES = toks('s', 10) | toks('c', 12) | toks('l', 3) | toks('w', 15) | S('h1', 'h2', 'g1', 'g2', 'v1', 'v2')
TARGETS = toks('t', 14)
ABS_STYLES = S('abs', 'path', 'http', 'query', 'ram', 'data', 'esc', 'httpesc', 'sim')
REL_STYLES = S('rel', 'reldot', 'relup', 'relhere')

TINY = dict(Names=S('s1', 'l1'), ExtNames=set(), BadNames=set(), Dots=set(), Rules=S('portable'), MaxDepth=2, MaxOps=2, NumObjs=1,
            Sizes={6}, Styles=S('abs'), Bulk=set(), Targets=S('t3'), Sampled=False)

SIM = dict(Names=NAMES, ExtNames=toks('e', 6), BadNames=toks('x', 8), Dots=S('', '.', '..'), Rules=S('portable', 'extended'), MaxDepth=5,
           MaxOps=12, NumObjs=4, Sizes=set(range(12)), Styles=ABS_STYLES, Bulk={5, 40}, Targets=TARGETS, Sampled=True)

CONTRACT = ['TreeClosed', 'NamesOK', 'OnlyAccepted', 'NoEmptyDirs']


def contract(c):
    c.model_check('Disc', dict(TINY, Names=S('s1', 's2'), ExtNames=S('e1'), BadNames=S('x1'), Dots=S('', '..'), Rules=S('portable', 'extended'),
                               MaxOps=c.pick(2, 3), Bulk={2}), CONTRACT)


def few_names(c, n, depth=4):
    """Token subsets per run, so that collisions and shared prefixes are frequent."""
    import random
    r = random.Random(c.seed * 7919 + n)
    names = sorted(NAMES)
    return set(r.sample(names, 5)) | S('s1')


def knobs(traces, aspects, caches=('memwide',), outs=('path',), start=0, **kw):
    for i, t in enumerate(traces):
        j = i + start
        t['aspects'] = list(aspects)
        t['cache'] = caches[j % len(caches)]
        t['out'] = outs[j % len(outs)]
        t['declared'] = (j // 2) % 2 == 0
        t['bsize'] = (4096, 512, 1000, 65536)[(j // 3) % 4]
        t.update(kw)
    return traces
