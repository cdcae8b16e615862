"""Transient HTTP failures are retried within bounds, others never.

TECHNIQUE: TLA+ (spec/Retry.tla): attempts with scripted outcomes, pauses, a time budget, cancellation in an attempt or
a pause and requests that cannot be sent again are model-checked (no repetition after a final answer, one open answer,
it ends). TLC's behaviours are replayed on the retrying transport with a recording transport below (attempts, pauses,
request bodies, answers closed, result), and on the whole client with a server in trouble.

LEVEL: exhaustive over short scripts and cancellation points; timing with generous margins.
"""
import random

from vlib import *

CODES = {'ok': [200, 206, 204], 'refused': [400, 401, 403, 404, 408, 409, 412, 416, 423, 425, 428, 430, 499], 'moved': [301, 304, 100], 'throttled': [429], 'server': [500, 501, 502, 503, 504, 505, 507, 511, 599]}


def run(c):
    rnd = random.Random(c.seed)
    outs = {q(o) for o in ('ok', 'refused', 'moved', 'throttled', 'server', 'net')}
    again = {q(o) for o in ('throttled', 'server', 'net')}
    cancels = '<- CancelPoints'
    k = {'MaxScript': 3, 'Outcomes': outs, 'Again': again, 'Cancels': cancels}
    c.model_check('Retry', k, ['OneOpen', 'Bound', 'Right'], properties=['NotRepeated', 'Ends'])
    cases = []
    ts = c.gen('Retry', k)
    rnd.shuffle(ts)
    late = 0
    for t in ts:
        slow = t['cancel'] == 'pause' and t['at'] > 1 or t['budget'] > 0
        if slow:
            late += 1
            if late > c.pick(500, 5000):
                continue
        body = 0 if t['resend'] and rnd.random() < .4 else rnd.choice([1, 100, 100000])
        cases.append(dict(t, status={o: rnd.choice(v) for o, v in CODES.items()}, body=body, partial=rnd.random() < .5, timeout=rnd.random() < .5))
    c.drive('http', 'retry', cases, jobs=24, case_timeout=60)
    wire = [{'script': [a] * n + [e], 'op': op} for a in ('throttled', 'server', 'reset', 'big') for n in (1, 2) for e in ('ok', 'refused') for op in ('read', 'stat', 'delete')]
    c.drive('http', 'wire', wire, jobs=24, case_timeout=60)
