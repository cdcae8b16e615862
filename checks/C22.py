"""S3 and Swift requests reach the right place, signed with the right keys.

TECHNIQUE: TLA+ (spec/S3Req.tla): histories of operations on S3, Swift and HTTPS URLs with context options attached in
any order, ambient credentials or none, remembered and failing region lookups, and slow or refusing services; TLC checks
that nothing is sent unsigned and that only successful lookups are remembered. Its behaviours are replayed through
pkg/storage against a fake service (name server and TLS proxy in the harness) that works out bucket, region and key from
the address and recomputes the signature.

LEVEL: exhaustive for short histories in the model; sampled replay.
"""
import random
from urllib.parse import quote

from vlib import *

BASE = {'AWS_CA_BUNDLE': '', 'AWS_PROFILE': '', 'AWS_SESSION_TOKEN': '', 'AWS_ACCESS_KEY_ID': '', 'AWS_SECRET_ACCESS_KEY': '', 'AWS_REGION': '', 'AWS_DEFAULT_REGION': '',
        'AWS_EC2_METADATA_DISABLED': 'true', 'AWS_SHARED_CREDENTIALS_FILE': '/nonexistent', 'AWS_CONFIG_FILE': '/nonexistent'}
KEYS = ['a', 'a b', 'a+b', 'a%20b', 'a%b', 'dir/file.iso', 'a//b', 'a/../b', './a', 'ä/ö', '日本語', "!*'()", '$&,:;=@', 'x?y', 'x#y', '~a', '-_.', 'a/', '[1]', 'a"b', '<>', 'a\\b', 'a|b^c`d{e}',
        'x' * 300, 'a=b&c=d', 'space at end ', 'versions', '%2F', 'a/./b', 'a/..', '\x7f']
REGIONS = [('us-west-2', 'us-west-2'), ('', 'us-east-1'), ('EU', 'eu-west-1'), ('eu-west-1', 'eu-west-1'), ('ap-southeast-1', 'ap-southeast-1'), ('eu-south-1', 'eu-south-1'), ('me-south-1', 'me-south-1')]
OPTS = ['s3c1', 's3c2', 's3t', 'swc1', 'swc2', 'swt', 'swr1', 'swr2', 'authz1', 'authz2', 'httpt']


def run(c):
    rnd = random.Random(c.seed)
    small = {'Buckets': {1, 2}, 'Opts': {q(o) for o in ['s3c1', 's3t', 'swc1', 'httpt']}, 'MaxOpts': 1, 'MaxOps': 2, 'Ambient': True, 'Sampled': False, 'Timeouts': False}
    for amb in (True, False):
        c.model_check('S3Req', dict(small, Ambient=amb, MaxOps=c.pick(2, 3)), ['Unsigned', 'LookedUpOnce', 'NotRemembered'], properties=['Stays'])
    envs = [(True, 'us-west-2', '', REGIONS), (False, 'eu-west-1', 'RegionTwo', REGIONS), (True, 'cn-north-1', 'here', [('cn-north-1', 'cn-north-1'), ('cn-northwest-1', 'cn-northwest-1')]),
            (True, '', '', REGIONS)]
    for amb, region, swregion, regions in envs:
        ts = c.gen('S3Req', dict(small, Sampled=True, Ambient=amb, Timeouts=not amb, Opts={q(o) for o in OPTS}, MaxOpts=5, MaxOps=6), simulate=c.pick(150, 3000), depth=40)
        env = dict(BASE)
        if amb:
            env.update(AWS_ACCESS_KEY_ID='AMBIENT', AWS_SECRET_ACCESS_KEY='secret of AMBIENT', SWIFT_ACCESS_KEY_ID='AMBIENT', SWIFT_SECRET_ACCESS_KEY='secret of AMBIENT')
        if region:
            env['AWS_REGION'] = region
        if swregion:
            env['SWIFT_REGION'] = swregion
        cases = []
        for t in ts:
            loc = [rnd.choice(regions) for _ in range(2)]
            for e in t['ev']:
                o = e['op']
                key = rnd.choice(KEYS)
                if o['verb'] == 'readdir':
                    key = rnd.choice([key, '']).rstrip('/')
                if o['scheme'] == 'https':
                    key = rnd.choice([k for k in KEYS if '..' not in k])
                e['key'] = key
                e['urlkey'] = quote(key, safe=rnd.choice(['/', "/!*'()$&,:;=@+", '/+=~'])) if rnd.random() < .8 else ''.join('%%%02X' % b if b != 47 else '/' for b in key.encode())
                e['account'] = rnd.choice(['acc', 'acc', 'AMBIENT', 'SWC1'])
                e['version'] = rnd.choice(['', '', 'v/1 +x']) if o['verb'] in ('open', 'stat', 'remove') else ''
            cases.append({'ev': t['ev'], 'locations': [a for a, _ in loc], 'regions': [b for _, b in loc], 'swiftregion': swregion or 'us-east-1'})
        c.drive('s3', 'request', cases, jobs=32, env=env, case_timeout=120)
    c.drive('s3', 'sign', [{'body': b, 'creds': x, 'path': p} for b in (-1, 0, 1, 100, 100000) for x in ('ok', 'fail') for p in ('k', 'a%20b%2B')], env=BASE)
