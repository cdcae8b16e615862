"""The cache integrity check is exact.

TECHNIQUE: TLA+ (spec/Integrity.tla): the verdict over entries with every kind of damage is specified and model-checked;
every combination for up to three entries and sampled larger caches are built by the real cache in scratch directories,
damaged, and checked by the real code, also with fewer file descriptors than entries and with other files around.

LEVEL: exhaustive for caches of up to three entries; sampled for larger ones.
"""
from vlib import *

DAMAGE = ['none', 'flip', 'truncate', 'empty', 'extend', 'nosum', 'shortsum', 'emptysum', 'wrongsum', 'stranger', 'gone', 'longsum', 'loop', 'flipend']


def run(c):
    d = {q(x) for x in DAMAGE}
    c.model_check('Integrity', {'MaxEntries': 3, 'Damages': d, 'Sampled': False}, ['Exact'])
    cases = []
    for i, t in enumerate(c.gen('Integrity', {'MaxEntries': c.pick(2, 3), 'Damages': d, 'Sampled': False})):
        cases.append(dict(t, benign=['junk'] if i % 3 == 0 else [], size=[5, 64, 1][i % 3] if 'truncate' not in t['damage'] else 8, fds=0))
    for n in (3, 8, 20, 40):
        for i, t in enumerate(c.gen('Integrity', {'MaxEntries': n, 'Damages': d, 'Sampled': True}, simulate=c.pick(60, 600))):
            cases.append(dict(t, benign=['junk'] if i % 2 else [], size=16, fds=0))
    cases.append({'entries': 0, 'damage': [], 'ok': True, 'benign': ['nocache'], 'size': 4, 'fds': 0})
    for x in cases:  # a one-byte block has no half
        if x['size'] == 1 and any(y in ('truncate',) for y in x['damage']):
            x['size'] = 8
    c.drive('cache', 'fsck', cases, jobs=8, case_timeout=60)
    many = [{'entries': n, 'damage': dm, 'ok': not dm, 'benign': [], 'size': 4, 'fds': 40}
            for n in (200, c.pick(300, 2000)) for dm in ([], ['none'] * 150 + ['flip'])]
    c.drive('cache', 'fsck', many, jobs=1, case_timeout=90)
    # blocks larger than any buffer
    big = [{'entries': 3, 'damage': dm, 'ok': not dm, 'benign': [], 'size': n, 'fds': 0}
           for n in (1 << 16, (1 << 20) + 1, 5 << 20) for dm in ([], ['none', 'flipend'], ['flipend', 'none'], ['truncate'], ['none', 'extend'])]
    c.drive('cache', 'fsck', big, jobs=4, case_timeout=60)
