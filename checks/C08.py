"""Damaged and foreign discs.

TECHNIQUE: TLA+ (spec/Damage.tla): a model of the stages of a load, with the damage each may or must notice, model-checked against the
outcomes allowed for each kind of damage. The damages TLC enumerates are applied to discs burned by the real code (every truncation
length, every byte and word, failing metadata reads) and the outcome of loading and looking at everything is compared with the allowed ones.

LEVEL: bounded model checking of the load stages; exhaustive over positions for the discs used, discs themselves sampled from spec/Disc.tla.
"""
from disclib import *


def run(c):
    c.assumptions.append('a damaged directory structure may be endless (a directory containing itself); a walk that keeps calling back is not a hang')
    lanes = c.pick(6, 4)
    D = dict(Lanes=lanes, Masks={1, 128, 255}, Words=S('zero', 'ones', 'inc', 'dec', 'swap', 'self', 'big'),
             Foreign=S('empty', 'byte', 'text', 'html', 'zeros', 'ones', 'iso', 'gztext', 'gzempty', 'gzhead', 'gzzeros', 'gzgz', 'words'),
             FaultSteps=set(range(1, 13)))
    c.model_check('Damage', D, ['OnlyAllowed', 'NeverBad'])
    damages = c.gen('Damage', D)
    cases = []
    for k in range(c.pick(1, 12)):
        discs = c.gen('Disc', dict(SIM, Names=S('s1', 's2', 'w1', 'g1', 'l2'), Dots=set(), ExtNames=set(), BadNames=set(), Sizes={0, 1, 4}, Styles=S('abs', 'sim'),
                                   Bulk={2}, MaxDepth=3, MaxOps=5, NumObjs=2, Targets=S('t3', 't7')), simulate=4, seed=c.seed * 100 + k)
        for i, d in enumerate(damages):
            cases.append(dict(discs[i % len(discs)], damage=d['damage'], allowed=d['allowed'], lanes=lanes, most=c.pick(350, 0), cache='memwide', bsize=4096, out='path'))
    res = c.drive('disc', 'damage', cases, jobs=7, case_timeout=300)
    total = {}
    for r in res.values():
        for k, v in (r.get('obs') or {}).items():
            total[k] = total.get(k, 0) + v
    c.log('outcomes: %s' % total)
