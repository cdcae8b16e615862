"""HTTP sizes and deletions reflect what the server said.

TECHNIQUE: TLA+ (spec/HttpSize.tla): answers to size queries (and to the download that replaces them) and to deletions
with the outcomes they allow, and an object opened without a size on a server whose object changes; TLC checks that a
size comes only from such answers and never changes, and generates all answers and sampled sequences, which real
servers give to the real client.

LEVEL: exhaustive over the answers of the model; sampled sequences on changing objects.
"""
import random

from vlib import *


def run(c):
    rnd = random.Random(c.seed)
    k = {'MaxOps': 3, 'MaxSize': 3, 'Sampled': False}
    c.model_check('HttpSize', k, ['OneSize', 'OnlyStated'], properties=['Fixed'])
    cases = []
    for t in c.gen('HttpSize', dict(k, MaxOps=0)):
        if t['mode'] == 'object':
            continue
        if t['mode'] == 'delete':
            late = t['q'][0] in (429, 500, 503)
            cases.append({'mode': 'delete', 'status': t['q'][0], 'out': t['q'][1], 'timeout': 300 if late else 10000, 'authz': rnd.choice(['', 'Bearer x'])})
            continue
        h, g, out = t['q']
        sizes = [0, 1, 10, 100000]
        for via, size in [(v, z) for v in ('stat', 'open') for z in (sizes if out == 'size' else [rnd.choice(sizes)])]:
            if g['body'] == 'truncated' and h['status'] == 405:
                size = max(size, 1)
            late = h['status'] in (429, 500, 503) or h['status'] == 405 and g['status'] in (429, 500, 503)
            cases.append({'mode': 'head', 'head': dict(h, cr='absent', body='full', trouble='none'), 'get': dict(g, cr='absent', trouble='none'),
                          'out': out, 'size': size, 'via': via, 'timeout': 300 if late else 10000, 'authz': rnd.choice(['', 'Bearer x'])})
    c.drive('http', 'size', cases, jobs=12, case_timeout=60)
    objs = []
    for n, m in ((8, 12), (30, 40)):
        for t in c.gen('HttpSize', dict(k, Sampled=True, MaxOps=n, MaxSize=m), simulate=c.pick(250, 6000), depth=n + 5):
            if t['mode'] == 'object':
                objs.append({'ops': t['ops'], 'start': t['start'], 'nohead': rnd.random() < .3, 'scale': rnd.choice([1, 1, 1000])})
    c.drive('http', 'object', objs, jobs=8, case_timeout=60)
