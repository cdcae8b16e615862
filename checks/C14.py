"""Parallel tree visits report each object once and never lose an error.

TECHNIQUE: TLA+ (spec/Visit.tla): a pool of workers visiting a tree with a failing listing, callback or predicate, a
skipped directory or a cancellation is model-checked for all small trees and completion orders (everything seen once,
no lost error, bounded pool, it ends). TLC's trees, faults and completion orders are replayed: a driver whose listings
wait for their turn serves the visit, and reports, result, calls after return and goroutines left are compared. The
tree sequences of the store model also end with visits of the file and in-memory schemes (C12).

LEVEL: exhaustive small trees and orders in the model; sampled larger ones on the implementation.
"""
import random

from vlib import *

FAULTS = ['list', 'callback', 'predicate', 'skip', 'cancel']
INV = ['AllSeen', 'NoLostError', 'Once', 'Bounded']
NAMES = ['d', 'a b', '100%', 'q?', 'h#', '\u00fc', 'a:b', '%41', '.x', '+', ' ']


def run(c):
    rnd = random.Random(c.seed)
    k = {'MaxDirs': 4, 'MaxFiles': 1, 'W': 2, 'Faults': {q(f) for f in FAULTS}, 'Sampled': False}
    c.model_check('Visit', k, INV, properties=['Ends'])
    c.model_check('Visit', dict(k, MaxDirs=c.pick(5, 6), W=3), INV[:2] + INV[3:], view='View')
    cases = []

    def add(ts, n=None):
        rnd.shuffle(ts)
        for t in ts[:n]:
            plain = t['kind'] not in ('predicate', 'skip') and rnd.random() < .2
            cases.append(dict(t, depth=rnd.random() < .5, width=rnd.choice([1, 2, 3, 5, 0, -1]), plain=plain, dots=rnd.random() < .3,
                              names=rnd.choice([['d'], NAMES]), honours=rnd.random() < .5, err=rnd.randrange(8)))
    add(c.gen('Visit', dict(k, MaxDirs=3, W=2)))
    big = dict(k, Sampled=True, MaxFiles=3)
    for dirs, w, n in ((5, 2, 300), (9, 4, 300), (14, 3, 200), (40, 6, 40)):
        add(c.gen('Visit', dict(big, MaxDirs=dirs, W=w), simulate=c.pick(n, 10 * n), depth=200))
    c.drive('storage', 'visit', cases, jobs=1, case_timeout=40)
