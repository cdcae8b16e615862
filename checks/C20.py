"""An uploaded object is complete and in order, or the upload fails cleanly.

TECHNIQUE: TLA+ (spec/Upload.tla): single puts and multi-part uploads with several workers, every order in which parts
finish, every request failing for good or once, data ending in an error, cancellation; TLC checks that success means
the whole object in order and failure leaves neither an object nor an unfinished upload. Every behaviour is replayed on
the real writer with the real S3 client against a server that finishes the parts in the given order.

LEVEL: exhaustive over the small model; sizes and chunkings sampled.
"""
import random

from vlib import *

KEPT = 'the object stored by ReadFrom stays when the S3 writer is aborted afterwards'


def run(c):
    rnd = random.Random(c.seed)
    k = {'MaxParts': 3, 'Workers': 3}
    c.model_check('Upload', {'MaxParts': 4, 'Workers': 3}, ['Whole', 'Clean'], properties=['Ends'])
    ts = c.gen('Upload', dict(k, MaxParts=c.pick(3, 4)))
    rnd.shuffle(ts)
    cases = []
    heavy = 0
    for n, t in enumerate(ts):
        if t['parts'] > 2:
            heavy += 1
            if heavy > c.pick(120, 2000):
                continue
        fate = t['fate']
        kinds = ['denied', 'server', 'reset', 'gone']
        if fate['how'] == 'transient':
            kinds = ['server']
        elif fate['req'] == 'complete':
            kinds.append('body')
        elif fate['req'] == 'create':
            kinds.append('noid')
        if fate['how'] == 'cancel':
            modes = ['ctx']
        elif t['ends'] >= 0:
            modes = ['write', 'stream', 'ctx']
        else:
            modes = ['write', 'stream', 'seeker', 'later', 'file', 'ctx']
        for kind in kinds if fate['req'] != 'none' and t['parts'] < 3 else [rnd.choice(kinds)]:
            for mode in modes if t['parts'] < 2 else [rnd.choice(modes)]:
                part = 5 << 20
                tail = rnd.choice([1, 1000, part - 1])
                if t['multi'] and (t['parts'] == 1 or t['ends'] >= 0):
                    if mode in ('seeker', 'later', 'file'):
                        continue
                    tail = part                  # a full part, after which comes nothing
                elif t['multi'] and mode not in ('seeker', 'later', 'file'):
                    tail = rnd.choice([tail, part])
                if t['ends'] >= 0 and not t['multi']:
                    tail = rnd.choice([1, 1000, part - 1])
                if t['ends'] == 0 and t['multi']:
                    continue                     # the same as no data at all
                key = rnd.choice(['/k', '/a b/ü+%', '/dir/sub/name.iso', 'x'])
                url = rnd.choice(['s3://bucket/k', 'swift://host/acc/bucket/k', 's3://bucket/a%20b?x=1'])
                cases.append(dict(t, kind=kind, mode=mode, tail=tail, chunk=rnd.choice([part, 1 << 20, 100000, 65536]), version=rnd.choice(['', 'v1', 'a/b c+']), key=key, url=url,
                                  twice=rnd.random() < .5, nowrite=t['parts'] == 0 and rnd.random() < .7 or t['ends'] == 0 and rnd.random() < .5))
    for _ in range(c.pick(60, 600)):             # nothing written at all, quickly
        cases.append({'parts': 0, 'multi': False, 'fate': {'req': 'none', 'part': 0, 'how': 'none'}, 'ends': -1, 'ord': [], 'result': 'ok', 'kind': '', 'mode': 'write', 'tail': 0,
                      'chunk': 1, 'version': '', 'key': 'k', 'url': 's3://bucket/k', 'twice': False, 'nowrite': True})
    rnd.shuffle(cases)
    c.drive('s3', 'upload', cases, jobs=6, case_timeout=60, racy=True)
    # again on one processor, where buffers that were given back are used again at once
    many = [x for x in cases if x['parts'] > 2 and x['mode'] in ('write', 'stream', 'ctx')]
    c.drive('s3', 'upload', many[:c.pick(40, 400)], jobs=2, case_timeout=60, racy=True, env={'GOMAXPROCS': '1'})
    r = c.drive('s3', 'kept', [{}])
    if any(x.get('obs', {}).get('kept') for x in r.values()):
        c.finding(KEPT)
