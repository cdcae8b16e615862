"""Read-ahead.

TECHNIQUE: TLA+ (spec/ReadAhead.tla): controllers of several objects sharing a token budget are model-checked; TLC's
histories of reads and completions are run against the real controllers with a recording, gated slicer, and the recorded
triggers are validated against the specification (spec/ReadAheadTrace.tla), including that read-ahead happens when it can.

LEVEL: exhaustive on the small model; sampled histories validated by trace inclusion on the implementation.
"""
from vlib import *


def run(c):
    c.model_check('ReadAhead', {'Objs': {1, 2}, 'Size': 4, 'B': 2, 'Window': 1, 'Tokens': 1, 'MaxReads': c.pick(2, 3), 'MaxLen': 2},
                  ['Budget', 'Inside'], view='View')
    c.model_check('ReadAhead', {'Objs': {1}, 'Size': 6, 'B': 2, 'Window': 2, 'Tokens': 2, 'MaxReads': c.pick(3, 4), 'MaxLen': 3},
                  ['Budget', 'Inside'], view='View')
    n = c.pick(60, 600)
    for objs, size, b, window, tokens in [(2, 24, 2, 3, 2), (1, 17, 3, 2, 8), (3, 20, 4, 9, 3), (2, 12, 1, 4, 1), (1, 40, 4, 6, 5),
                                          (2, 9, 2, 0, 2), (2, 30, 1, 8, 4), (1, 8, 8, 3, 2), (1, 30, 2, 7, 12)]:
        k = {'Objs': set(range(1, objs + 1)), 'Size': size, 'B': b, 'Window': window, 'Tokens': tokens, 'MaxReads': 14, 'MaxLen': 2 * b + 2}
        ts = c.gen('ReadAhead', k, simulate=n, depth=400, spec='Sim')
        cases = [{'ops': t['ops'], 'objs': objs, 'size': size, 'b': b, 'window': window, 'tokens': tokens} for t in ts]
        res = c.drive('cache', 'readahead', cases, jobs=7)
        idx = [i for i in range(len(cases)) if res[i]['ok']]
        for i, at in c.validate('ReadAheadTrace', [{'ev': res[j]['obs']['ev']} for j in idx], k, spec='TSpec'):
            ev = res[idx[i]]['obs']['ev']
            c.violation('readahead', {'area': 'cache', 'driver': 'readahead', 'case': cases[idx[i]]},
                        'event %d of %s is not allowed (window %d, %d tokens, %d units per block)' % (
                            at + 1, [(e['e'], e['o'], e['off'], e['n'], e['s'], e['k']) for e in ev[:at + 1]], window, tokens, b))
    cases = [{'ops': [], 'objs': o, 'size': s, 'b': b, 'window': w, 'tokens': t}
             for o in (1, 2) for s, b in ((40, 2), (31, 3), (7, 7)) for w, t in ((3, 2), (1, 1), (0, 3), (20, 1), (20, 9))]
    c.drive('cache', 'racache', cases, jobs=7)
