"""Writers publish all or nothing, and only on commit.

TECHNIQUE: TLA+ (spec/Publish.tla, spec/Store.tla): the steps of a writer with a crash or a failure before each are
model-checked (readers see the old or the whole new content, errors mean old, success means new), and the store model
gives sequences of several writers. All Publish behaviours are replayed with real writing processes that die or fail at
the given system call (seccomp) while a reader polls; Store sequences are replayed on the file and in-memory schemes;
rival writers of one URL run with polling readers; the data scheme's committed URLs are opened again.

LEVEL: exhaustive crash and failure points of the file scheme; sampled sequences and schedules.
"""
import random

import storelib
from vlib import *

STEPS = ['create', 'write', 'sync', 'close', 'publish', 'tidy']


def run(c):
    rnd = random.Random(c.seed)
    k = {'NumWrites': 2, 'Kinds': {q('crash'), q('err')}, 'Steps': {q(s) for s in STEPS}}
    c.model_check('Publish', k, ['AllOrNothing', 'ErrorMeansOld', 'SuccessMeansNew'], properties=['Ends'])
    storelib.model(c)
    cases = []
    for n in c.pick([1, 3], [1, 2, 3, 5]):
        for t in c.gen('Publish', dict(k, NumWrites=n)):
            if (t['kind'], t['step']) in (('err', 'tidy'),):
                continue
            befores = sorted({0, n // 2, n}) if t['kind'] != 'none' and t['step'] != 'create' else [0]
            for b in befores:
                if t['step'] == 'write' and b >= n and t['kind'] != 'none':
                    continue
                for size in ([7, 200000] if t['kind'] != 'none' else [0, 5000]):
                    cases.append(dict(t, before=b, size=size, path='x', fresh=not t['old'] and rnd.random() < .5))
    res = c.drive('storage', 'publish', cases, jobs=7, case_timeout=60)
    if all(r['ok'] for r in res.values()):
        dead = sum(1 for r in res.values() if r['obs']['dead'])
        c.log('%d writers, %d died' % (len(cases), dead))
        if dead < len(cases) // 8:
            raise CheckError('hardly any writer died')
    rivals = [{'scheme': s, 'writers': w, 'rounds': r, 'size': z, 'chunks': k, 'aborts': a}
              for s in ('file', 'ram') for w, r, z in ((2, 20, 10), (4, 10, 3000), (8, 6, 70000), (3, 12, 0)) for k in (1, 3) for a in (False, True)]
    rivals = rivals * c.pick(1, 6)
    c.drive('storage', 'rivals', rivals, jobs=4, case_timeout=60, racy=True)
    data = []
    for _ in range(c.pick(150, 3000)):
        ops = [rnd.choice([0, 1, 2, 3, 50, 255, 3000]) for _ in range(rnd.randrange(5))]
        ops += [-2] if rnd.random() < .6 else [-1, rnd.choice([5, 0]), -2]
        data.append({'ops': ops})
    c.drive('storage', 'datafile', data, jobs=4)
    c.drive('storage', 'tree', storelib.cases(c, rnd, c.pick(60, 1500), writers=4), jobs=6)
    c.assumptions.append('a commit that does not wait for the data to reach the disk is taken for not crash-safe')
