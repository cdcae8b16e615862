"""HTTP reads return the right bytes or an error, whatever the server does.

TECHNIQUE: TLA+ (spec/HttpRead.tla): a ranged read and the server's answer (status, Content-Range, Content-Length, body,
each right or wrong in many ways) with the outcomes allowed; TLC checks that only proven bytes are taken and enumerates
all answers. Each is given by a real server to the real client, several on one connection, comparing the result, the
bytes, the ranges asked for, the credentials sent and the time taken.

LEVEL: exhaustive over the answers of the model; sampled sequences of them.
"""
import random

from vlib import *


def run(c):
    rnd = random.Random(c.seed)
    k = {'Sizes': {0, 1, 3}, 'Lens': {0, 1, 2, 4}, 'Sampled': False}
    c.model_check('HttpRead', k, ['OnlyProven', 'RightIsTaken'])
    ts = c.gen('HttpRead', dict(k, Sizes={3}, Lens=c.pick({2}, {1, 2, 4})))
    ts += c.gen('HttpRead', dict(k, Sampled=True, Sizes={1, 100, 70000, 300000}, Lens={1, 50, 4096, 200000}), simulate=c.pick(600, 15000), depth=5)
    rnd.shuffle(ts)
    quick, slow = [], []
    for t in ts:
        a = t['ans']
        late = (a['trouble'] != 'none' or a['status'] in (429, 500, 503, 599) or a['cl'] in ('minus', 'word') or a['body'] == 'stall') and t['out'] not in ('end', 'nothing')
        # such malformed headers are refused by the transport, which is retried
        late = late or a['cr'] == 'junk'
        (slow if late else quick).append(t)
    cases = []
    paths = ['/x', '/a%20b/c%3Fd?q=1&r=%2F', '/%C3%BC', '/']
    while quick:
        m = rnd.choice([1, 3, 8])
        cases.append({'steps': quick[:m], 'authz': rnd.choice(['', 'Bearer abc', 'Basic Zm9vOmJhcg==']), 'first': rnd.random() < .5, 'timeout': 10000, 'path': rnd.choice(paths)})
        quick = quick[m:]
    for t in slow[:c.pick(300, 3000)]:
        cases.append({'steps': [t], 'authz': rnd.choice(['', 'Bearer abc']), 'first': rnd.random() < .5, 'timeout': rnd.choice([150, 400]), 'path': rnd.choice(paths)})
    rnd.shuffle(cases)
    c.drive('http', 'reads', cases, jobs=16, case_timeout=120)
