"""Bucket listings return every current object once across all pages.

TECHNIQUE: TLA+ (spec/Listing.tla): directories of objects with several versions, deleted objects and sub-directories,
paged in every way, with failing and malformed pages; TLC checks that every current entry is listed once and that a bad
page fails the listing. Its behaviours are served by a fake S3 and Swift service (name server, TLS proxy and signature
check in the harness) to the real drivers.

LEVEL: exhaustive for small directories in the model; sampled replay.
"""
import random

from vlib import *

ENV = {'AWS_CA_BUNDLE': '', 'AWS_PROFILE': '', 'AWS_SESSION_TOKEN': '', 'AWS_ACCESS_KEY_ID': 'AMBIENT', 'AWS_SECRET_ACCESS_KEY': 'ambient-secret', 'AWS_REGION': 'us-west-2', 'AWS_EC2_METADATA_DISABLED': 'true', 'SWIFT_ACCESS_KEY_ID': 'AMBIENT',
       'SWIFT_SECRET_ACCESS_KEY': 'ambient-secret', 'AWS_SHARED_CREDENTIALS_FILE': '/nonexistent', 'AWS_CONFIG_FILE': '/nonexistent'}
NAMES = ['0', 'A', 'a', 'a b', 'a+b', 'a%20', 'a&b<c>', 'ab', 'b.iso', 'name', 'x=y', 'z', 'ä', '日本', "q'", '*', 'n-1', 'n.1', 'n1', 'n_1', '~', 'k;l', 'm:n', 'versions', '[x]', 'p#q', 'r?s']
DIRS = [('', ''), ('', '/'), ('dir/', '/dir'), ('dir/', '/dir/'), ('a b/ü/', '/a%20b/%C3%BC/'), ('x+y&z=1/', '/x+y&z=1'), ('a/../b/', '/a/../b')]
FAULTS = ['denied', 'server', 'missing', 'malformed', 'cut', 'nomarker', 'prefix', 'time', 'number', 'root', 'empty', 'nocontent']
STAMPS = ['2019-09-23T12:34:56.789Z', '2000-02-29T00:00:00.000Z', '1999-12-31T23:59:59.001Z']


def run(c):
    rnd = random.Random(c.seed)
    k = {'NumKeys': 3, 'MaxPage': 3, 'Sampled': False, 'Faults': {q(f) for f in FAULTS}}
    c.model_check('Listing', dict(k, NumKeys=c.pick(3, 4)), ['Once', 'Complete', 'OnlyCurrent'], properties=['Ends'])
    ts = c.gen('Listing', dict(k, Faults=set(), NumKeys=3, MaxPage=2))
    ts += c.gen('Listing', dict(k, Sampled=True, NumKeys=8, MaxPage=5), simulate=c.pick(900, 15000), depth=40)
    ts += c.gen('Listing', dict(k, Sampled=True, NumKeys=20, MaxPage=12), simulate=c.pick(300, 5000), depth=60)
    cases = []
    for t in ts:
        names = sorted(rnd.sample(NAMES, len(t['items'])), key=lambda s: s.encode())
        # sub-directories sort by their name with a slash
        pairs = list(zip(names, t['items']))
        keys = [(n + ('/' if it == 'dir' else '')).encode() for n, it in pairs]
        if keys != sorted(keys):
            continue
        d, u = rnd.choice(DIRS)
        scheme = rnd.choice(['s3', 's3', 'swift'])
        cases.append(dict(t, names=names, dir=d, urldir=u or ('/' if scheme == 'swift' else ''), scheme=scheme, self=d != '' and t['fault']['item'] == 0 and rnd.random() < .3, null=rnd.random() < .3,
                          stamps=rnd.sample(STAMPS, 3)))
    c.drive('s3', 'listing', cases, jobs=6, env=ENV, case_timeout=60)
