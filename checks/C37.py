"""Whoever has closed everything holds nothing: no descriptors, mappings or goroutines stay behind.

TECHNIQUE: TLA+ (spec/Handles.tla over spec/Disc.tla): TLC checks that what is held is accounted for by something open and that all can
always be closed, and generates histories of burning, loading (also what cannot be loaded), opening, overlapping reads, lost sources and
closing. The real code runs them without garbage collection; whenever everything is closed its descriptors, mappings and goroutines are
compared with those before.

LEVEL: exhaustive model for short histories on tiny discs; sampled longer histories over every cache and kind of disc.
"""
import random

from vlib import *
from disclib import S, SIM, TINY, few_names

LOADS = S('ok', 'nodisc', 'empty', 'cut', 'text', 'gzhead', 'gzcut', 'words', 'version')
WAYS = S('all', 'part', 'past')


def run(c):
    c.assumptions.append('goroutines and descriptors of background work are given seconds to end')
    tiny = dict(TINY, Names=S('s1'), MaxOps=1, MaxDepth=1, Targets=S('t1'), MaxActs=4, MaxDiscs=2, MaxFiles=1, MaxReads=1, Loads=S('ok', 'cut'), Ways=S('all'))
    c.model_check('Handles', dict(tiny, MaxActs=c.pick(5, 7), MaxFiles=2, MaxReads=2), ['Accounted', 'Released', 'FilesOfReads', 'Closable'], view='View')
    rnd = random.Random(c.seed)
    cases = c.gen('Handles', dict(tiny, Loads=LOADS))
    rnd.shuffle(cases)
    cases = cases[:c.pick(150, 3000)]
    for i in range(c.pick(4, 30)):
        k = dict(SIM, Rules=S('portable'), ExtNames=set(), BadNames=set(), Dots=set(), MaxDepth=3, MaxOps=6, NumObjs=3, Names=few_names(c, i), Sizes=set(range(8)),
                 Styles=S('abs', 'path', 'esc', 'sim'), Bulk={5, 70}, MaxActs=40, MaxDiscs=3, MaxFiles=4, MaxReads=3, Loads=LOADS, Ways=WAYS)
        cases += c.gen('Handles', k, simulate=c.pick(60, 150), depth=120, seed=c.seed * 100 + i)
    for i, t in enumerate(cases):
        t.update(seed=rnd.randrange(1 << 30), cache=('nop', 'mem', 'disk', 'memwide', 'disk')[i % 5], out='path', declared=i % 2 == 0, bsize=(4096, 65536)[i // 5 % 2])
    c.drive('disc', 'handles', cases, jobs=7, case_timeout=100)
