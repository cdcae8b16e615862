"""What a burn accepts, and what a failed burn leaves.

TECHNIQUE: TLA+ (spec/Disc.tla, spec/Burn.tla): acceptance of additions and the steps of publishing a disc are
model-checked with TLC; all short sequences of additions over valid, extended-only, invalid and dot components and
every fault point of a burn, generated by TLC, are replayed on the real builder; each acceptance, the final tree and
the presence of the disc are compared with the specification.

LEVEL: bounded model checking; exhaustive replay of single additions up to depth 3, of two and three additions over
small name sets and of every fault point; sampled replay of longer sequences.
"""
from disclib import *


def run(c):
    contract(c)
    c.model_check('Burn', dict(MaxWrites=3), ['NoPartialDisc', 'ErrorsReported', 'SuccessPublishes'])
    odd = dict(Names=S('s1'), ExtNames=S('e1'), BadNames=S('x1'), Dots=S('', '.', '..'), Rules=S('portable', 'extended'))
    cases = knobs(c.gen('Disc', dict(TINY, **dict(odd, MaxDepth=3, MaxOps=1))), ['list'])
    cases += knobs(c.gen('Disc', dict(TINY, Names=S('s1', 's2'), MaxDepth=2, MaxOps=2, Rules=S('portable'))), ['list'])
    cases += knobs(c.gen('Disc', dict(TINY, Names=S('s1'), MaxDepth=3, MaxOps=3, Rules=S('extended'))), ['list'])
    # every token under both rules, alone and below a directory
    allt = dict(TINY, Names=NAMES, ExtNames=toks('e', 6), BadNames=toks('x', 8), Rules=S('portable', 'extended'), MaxOps=1, Targets=set())
    cases += knobs(c.gen('Disc', dict(allt, MaxDepth=1)), ['list'])
    cases += knobs(c.gen('Disc', dict(SIM, Names=S('s1', 's2', 'l1'), MaxDepth=4, MaxOps=14, Sizes={1, 6}, Bulk={2}), simulate=c.pick(400, 5000)), ['list'])
    c.drive('disc', 'disc', cases, jobs=7, case_timeout=60)
    faults = c.gen('Burn', dict(MaxWrites=3))
    c.drive('disc', 'burnfault', faults, jobs=1)
    c.drive('disc', 'missing', [{'style': s, 'declared': d} for s in ('abs', 'path', 'rel', 'http', 'ram', 'sim', 'badurl', 'scheme', 'data') for d in (False, True)], jobs=1)
