"""File and in-memory namespaces behave like a file system tree.

TECHNIQUE: TLA+ (spec/Store.tla): a tree of directories and objects with writers and open handles, every operation with
its response, is model-checked (tree shape, only commits and removals change it) and its sampled behaviours are replayed
on the file scheme in scratch directories and on the in-memory scheme, with names special to URLs, several spellings of
each URL, and several sequences at the same time; responses, listings, reported URLs and the final tree are compared.

LEVEL: exhaustive small models; sampled sequences on both schemes.
"""
import random

import storelib


def run(c):
    rnd = random.Random(c.seed)
    storelib.model(c)
    c.drive('storage', 'tree', storelib.cases(c, rnd, c.pick(400, 6000)), jobs=7, case_timeout=60)
    c.drive('storage', 'tree', storelib.cases(c, rnd, c.pick(150, 2000), root=True), jobs=1)
