"""Sequences of the object store model for C11 and C12."""
from vlib import *

INV = ['Tree', 'Atomic']
NAMES = ['a', 'b', 'a b', '100%', 'q?x=1', 'h#y', '\u00fc', 'a:b', '%41', '.hidden', 'x+y', 'a&b', 'semi;colon', '...', 'a\\b', "it's", '"q"', '<t>',
         '~u', '[z]', '@', '$', 'A', 'new\nline', '\u65e5\u672c', '%2F', 'file:', 'x' * 100, '..a', '=', ' lead', 'trail ']


def model(c):
    small = {'Names': {1, 2}, 'MaxDepth': 2, 'Writers': {1}, 'Handles': {1}, 'MaxOps': c.pick(3, 5), 'Chunks': {1}, 'Sampled': False}
    for eager in (True, False):
        c.model_check('Store', dict(small, EagerDirs=eager), INV, properties=['OnlyCommits'])
        c.model_check('Store', dict(small, Names={1}, Writers={1, 2}, Chunks={1, 2}, MaxOps=c.pick(8, 10), EagerDirs=eager), INV[:1], view='View')


def cases(c, rnd, n, writers=2, root=False):
    out = []
    for scheme in (['ram'] if root else ['file', 'ram']):
        k = {'Names': {1, 2}, 'MaxDepth': 2, 'Writers': set(range(1, writers + 1)), 'Handles': {1, 2}, 'MaxOps': 25, 'Chunks': {1, 2, 3},
             'Sampled': True, 'EagerDirs': scheme == 'file'}
        ts = c.gen('Store', k, simulate=n, depth=40)
        ts += c.gen('Store', dict(k, Names={1, 2, 3}, MaxDepth=3, MaxOps=60), simulate=n, depth=80)
        rnd.shuffle(ts)
        while ts:
            m = 1 if root else rnd.choice([1, 1, 4])
            seqs, ts = ts[:m], ts[m:]
            out.append({'scheme': scheme, 'names': rnd.sample(NAMES, 3), 'form': rnd.choice([0, 9, 9, 2, 3]), 'root': root,
                        'sizes': rnd.choice([[3, 0, 5], [1000, 1, 70000]]), 'seqs': seqs})
        # a few trees have far more entries than a listing may read in one go
        for i, crowd in enumerate([1, 100, 1025, 2600, 5000]):
            if not root:
                out[-1 - i]['crowd'] = crowd
    return out
