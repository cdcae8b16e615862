"""Disk cache entries appear complete or not at all.

TECHNIQUE: TLA+ (spec/DiskFill.tla): the fill protocol of several processes with a crash or a failure at every step is
model-checked (only complete entries visible, one fetch at a time, nobody stuck, everybody ends). TLC's schedules of
starts, source answers, crashes and failures are replayed with real processes on one cache directory: crash points and
failing calls are forced with seccomp filters, visible entries are inspected all the time and in the end, and source
contacts are counted in shared memory.

LEVEL: exhaustive protocol model; every crash and failure step on the implementation, sampled schedules.
"""
from vlib import *

CRASH = ['look', 'lock', 'fetch', 'create', 'write', 'setkey', 'setsum', 'sync', 'publish', 'unlock']
ERR = ['look', 'lock', 'create', 'write', 'setkey', 'setsum', 'sync', 'publish']
INV = ['Complete', 'RightBytes', 'OneFetcher', 'FewFetches', 'NoStuck', 'ErrorsExplained']


def run(c):
    k = {'Procs': {1, 2}, 'MaxFails': 1, 'CrashSteps': {q(x) for x in CRASH}, 'ErrSteps': {q(x) for x in ERR}, 'MaxPlans': 2}
    c.model_check('DiskFill', k, INV, properties=['AllEnd'])
    c.model_check('DiskFill', dict(k, Procs={1, 2, 3}, MaxPlans=c.pick(1, 2)), INV, view='View')
    cases = []
    seen = set()

    def add(ts, limit=10 ** 9):
        n = 0
        for t in ts:
            if str(t['ev']) not in seen and n < limit:
                seen.add(str(t['ev']))
                n += 1
                i = len(cases)
                cases.append(dict(t, readers=[1, 2, 3][i % 3], unit=[64, 4096][i % 2], cells=3, ra=i % 5 == 0, half=i % 2 == 1))
    add(c.gen('DiskFill', dict(k, Procs={1}, MaxPlans=1)))
    # other calls made on the way
    for step in ('close', 'remove'):
        for kind in ('crash', 'err'):
            if (kind, step) != ('err', 'close'):
                add([{'ev': [{'e': 'start', 'p': 1, 'kind': kind, 'step': step}, {'e': 'release', 'p': 1, 'ok': True}], 'cached': False}])
    add(c.gen('DiskFill', k, simulate=c.pick(250, 2500), spec='Sim', depth=100))
    add(c.gen('DiskFill', dict(k, Procs={1, 2, 3, 4}, MaxPlans=3, MaxFails=2), simulate=c.pick(150, 2500), spec='Sim', depth=150))
    res = c.drive('cache', 'fill', cases, jobs=7, case_timeout=90)
    crashed = sum(r['obs']['crashed'] for r in res.values() if r['ok'])
    c.log('%d processes were crashed' % crashed)
    if crashed == 0 and all(r['ok'] for r in res.values()):
        raise RuntimeError('no process could be crashed')
