"""Budget, replacement order and single fetches of the memory cache.

TECHNIQUE: TLA+ (spec/MemCache.tla, spec/Lru.tla): the buffer protocol is model-checked with and without displacement
(budget, one buffer per block, exclusive filling, single fetch, nobody stuck, everybody ends); TLC's schedules of readers
and source answers are replayed against the real cache with a gated source; recorded single-reader histories (which reads
needed the source) are validated against Lru by trace inclusion.

LEVEL: exhaustive on the protocol model; sampled schedules and histories on the implementation.
"""
import random
from vlib import *

INV = ['RightBytes', 'Budget', 'OneBufferEach', 'Exclusive', 'SingleFetch', 'FetchedOnce', 'NoStuck']


def readers(n):
    return set(range(1, n + 1))


def run(c):
    c.model_check('MemCache', {'Readers': readers(2), 'Blocks': {1, 2}, 'Cap': 2, 'MaxReads': 4, 'MaxFails': 1}, INV, properties=['AllEnd'])
    c.model_check('MemCache', {'Readers': readers(3), 'Blocks': {1, 2, 3}, 'Cap': 2, 'MaxReads': c.pick(4, 6), 'MaxFails': 1},
                  [i for i in INV if i != 'FetchedOnce'], view='View')
    cases = []
    for nr, nb, cap, reads in [(3, 2, 2, 8), (4, 3, 4, 10), (2, 1, 1, 6), (3, 3, 2, 9), (4, 4, 1, 10), (6, 5, 5, 16)]:
        ts = c.gen('MemCache', {'Readers': readers(nr), 'Blocks': readers(nb), 'Cap': cap, 'MaxReads': reads, 'MaxFails': 2},
                   simulate=c.pick(60, 800), depth=200)
        seen = set()
        for t in ts:
            k = str(t)
            if k not in seen:
                seen.add(k)
                cases.append(dict(t, cap=cap, blocks=nb))
    c.drive('cache', 'memsched', cases, jobs=7, case_timeout=60)
    # replacement order: histories validated against the specification
    rng = random.Random(c.seed)
    for cap in (1, 2, 3, 5):
        hs = []
        for k in range(c.pick(120, 1500)):
            nb = rng.choice([2, 3, 4])
            hs.append({'cap': cap, 'blocks': nb, 'ops': [
                {'o': rng.choice([1, 1, 2]), 'b': rng.randrange(nb), 'bad': k % 3 == 0 and rng.random() < .2, 'ra': k % 2 == 0 and rng.random() < .2}
                for _ in range(30)]})
        res = c.drive('cache', 'lru', hs, jobs=7)
        idx = [i for i in range(len(hs)) if res[i]['ok']]
        for i, at in c.validate('LruTrace', [{'ev': res[j]['obs']['ev']} for j in idx], {'Cap': cap}):
            ev = res[idx[i]]['obs']['ev']
            c.violation('lru', {'area': 'cache', 'driver': 'lru', 'case': hs[idx[i]], 'cap': cap},
                        'reads up to %d of %s are not those of a least-recently-used cache of %d blocks' % (at + 1, [(e['b'], e['fetch'], e['ok']) for e in ev[:at + 1]], cap))

