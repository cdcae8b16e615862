"""Well-formedness of burned volumes.

TECHNIQUE: TLA+ (spec/Layout.tla): what a well-formed volume is, as a predicate; spec/LayoutModel.tla model-checks that a
sequential allocator always satisfies it and that every single-number corruption violates it. Trees generated from
spec/Disc.tla are burned by the real code; an independent ISO 9660 / Rock Ridge reader describes each resulting image and TLC
judges the description (spec/LayoutTrace.tla). spec/Volume.tla generates sets of huge files that do or do not fit.

LEVEL: bounded model checking of the layout model; sampled trees for the real writer, every resulting image judged by TLC.
"""
from vlib import q
from disclib import *
import json


def run(c):
    contract(c)
    c.model_check('LayoutModel', dict(MaxDirs=c.pick(2, 3), MaxFiles=2), ['LaidWellFormed', 'CorruptIllFormed'])
    cases = []
    cases += c.gen('Disc', dict(TINY, Names=S('s1', 'w1'), MaxDepth=2, MaxOps=2, NumObjs=1, Sizes={0, 5, 9}, Styles=S('sim'), Targets=S('t1')))
    n = c.pick(100, 2000)
    sim = dict(SIM, Styles=S('sim'))
    cases += c.gen('Disc', dict(sim, Sizes=set(range(8)), Bulk={5, 25}), simulate=n)
    cases += c.gen('Disc', dict(sim, Bulk={3}, MaxDepth=4), simulate=n, seed=c.seed + 1000)
    cases += c.gen('Disc', dict(sim, Names=few_names(c, 1), Bulk={3}, MaxDepth=5, MaxOps=16), simulate=n, seed=c.seed + 2000)
    cases += c.gen('Disc', dict(sim, Names=toks('w', 15) | S('g1', 'v1', 'h1'), Targets=S('t7', 't8', 't11', 't12'), Bulk={40}, Sizes={0, 1, 4}, MaxDepth=2, MaxOps=8),
                   simulate=c.pick(20, 300), seed=c.seed + 3000)
    # names of every length, so that continuations meet the ends of sectors in every way
    cases += c.gen('Disc', dict(sim, Names={q('n%d' % i) for i in list(range(40, 100)) + list(range(290, 330))}, ExtNames=set(), BadNames=set(), Dots=set(), Rules=S('portable'),
                                Targets=S('t1', 't3'), Bulk=set(), Sizes={1}, MaxDepth=1, MaxOps=20), simulate=c.pick(250, 3000), seed=c.seed + 4000)
    res = c.drive('disc', 'layout', cases, jobs=7, case_timeout=60)
    judge(c, cases, res)
    big = c.gen('Volume', dict(Units={1, 30, 63, 64, 65, 127, 128, 129, 160}, MaxFiles=c.pick(2, 3)))
    c.drive('disc', 'toobig', big, jobs=7)


def judge(c, cases, res):
    idx = [i for i in sorted(res) if res[i].get('ok')]
    vols = [res[i]['obs'] for i in idx]
    for k in range(0, len(vols), 400):
        part = vols[k:k + 400]
        text = ''.join(json.dumps(v) + '\n' for v in part)
        verdicts = c.gen('LayoutTrace', {}, tag='VERDICT', extra_files={'traces.ndjson': text}, workers=6, count=True, timeout=1200)
        if len(verdicts) != len(part):
            raise RuntimeError('LayoutTrace judged %d of %d volumes' % (len(verdicts), len(part)))
        for v in verdicts:
            if v['broken']:
                i = idx[k + v['i'] - 1]
                c.violation('volume not well formed: ' + ', '.join(v['broken']),
                            {'area': 'disc', 'driver': 'layout', 'case': cases[i], 'env': {}, 'mods': False},
                            'TLC rejects the recorded layout (clauses %s)' % ', '.join(v['broken']))
