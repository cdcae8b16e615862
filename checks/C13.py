"""Advisory locks exclude across goroutines and processes.

TECHNIQUE: TLA+ (spec/Locks.tla): exclusive and shared locks of contenders that may die are model-checked (exclusion, a
free lock can always be granted). Its sampled schedules of requests, releases and deaths are carried out by real
goroutines and processes; the driver requires the grants that are due, and TLC checks that the recorded histories of
requests, grants, releases and deaths are behaviours of the model (spec/LocksTrace.tla).

LEVEL: exhaustive small model; sampled schedules with trace validation.
"""
import random

from vlib import *

INV = ['Exclusive', 'NoStuck']


def run(c):
    rnd = random.Random(c.seed)
    c.model_check('Locks', {'Contenders': {1, 2, 3}, 'Locked': {1}, 'MaxOps': c.pick(6, 9)}, INV, properties=['SomeoneGoes'], view=None)
    c.model_check('Locks', {'Contenders': {1, 2, 3}, 'Locked': {1, 2}, 'MaxOps': c.pick(8, 12)}, INV, view='View')
    cases = []
    for cont, locked, ops, n in ((2, 1, 8, 60), (3, 1, 14, 120), (4, 2, 20, 120), (6, 2, 30, 60)):
        for t in c.gen('Locks', {'Contenders': set(range(1, cont + 1)), 'Locked': set(range(1, locked + 1)), 'MaxOps': ops},
                       simulate=c.pick(n, 12 * n), depth=120):
            kind = rnd.choice(['procs', 'routines', 'mixed', 'mixed'])
            dies = {o['c'] for o in t['ops'] if o['e'] == 'die'}
            if kind == 'routines':
                t['ops'] = [o for o in t['ops'] if o['e'] != 'die']
                dies = set()
            procs = [kind == 'procs' or x in dies or kind == 'mixed' and rnd.random() < .5 for x in range(1, cont + 1)]
            cases.append({'ops': t['ops'], 'procs': procs, 'forms': rnd.random() < .5, 'exist': rnd.random() < .3, 'deep': rnd.random() < .3})
    res = c.drive('storage', 'locks', cases, jobs=8, case_timeout=90, racy=True)
    traces = [{'ev': r['obs']['ev']} for i, r in sorted(res.items()) if r.get('obs')]
    order = [i for i, r in sorted(res.items()) if r.get('obs')]
    k = {'Contenders': set(range(1, 7)), 'Locked': {1, 2}, 'MaxOps': 0}
    for i, m in c.validate('LocksTrace', traces, k, spec='TSpec'):
        c.violation('locks', cases[order[i]], 'event %d of the recorded history is impossible: %s' % (m + 1, traces[i]['ev'][:m + 1]))
    n = sum(1 for t in traces for e in t['ev'] if e['e'] == 'got')
    c.log('%d grants, %d deaths' % (n, sum(1 for t in traces for e in t['ev'] if e['e'] == 'die')))
    if n < len(traces):
        raise CheckError('hardly any lock was granted')
