"""Objects of every storage scheme.

TECHNIQUE: TLA+ (spec/ObjRead.tla): the read contract is model-checked with TLC; read histories generated by TLC
are replayed on objects of every scheme (file, path, ram, http, data, zero), opened with and without declared size,
and each response is compared with the one the specification gives.

LEVEL: bounded model checking of the contract; exhaustive single reads on small objects and sampled histories,
replayed on the real drivers (http against a loopback server).
"""
from vlib import q


def run(c):
    kinds = ['file', 'path', 'data', 'datahex', 'zero', 'ram', 'http']
    base = dict(WithBad=False, WithSlice=True, SliceFrom={0}, MaxParts=1)
    c.model_check('ObjRead', dict(base, Kinds={q('file')}, MaxSize=3, MaxOff=4, MaxLen=3, MaxOps=c.pick(2,3), Single=False),
                  ['PosInside', 'RunIsPrefix', 'ResponsesRight'])
    full = c.gen('ObjRead', dict(base, Kinds={q(k) for k in kinds}, MaxSize=3, MaxOff=5, MaxLen=5, MaxOps=1, Single=True))
    seqs = c.gen('ObjRead', dict(base, Kinds={q(k) for k in kinds}, MaxSize=4, MaxOff=6, MaxLen=6, MaxOps=12, Single=False),
                 simulate=c.pick(1200, 20000), depth=14)
    cases = []
    for i, t in enumerate(full + seqs):
        cf = t['cfg']
        total = sum(cf['parts'])
        # a data or zero URL carries its own size; an empty declaration is for the others
        if cf['kind'] in ('data', 'datahex', 'zero') and cf['n'] not in (-1, total):
            continue
        t['unit'] = (1, 3, 1000)[(i + c.seed) % 3] if cf['kind'] != 'datahex' else 1
        cases.append(t)
    c.drive('core', 'schemes', cases, jobs=4)
    c.assumptions.append('S3 and Swift readers are the HTTP reader with a signing transport; their addressing is decided under C22')
