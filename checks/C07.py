"""From extents back to source URLs.

TECHNIQUE: TLA+ (spec/Disc.tla): trees of files over source objects with every URL style and shared URL prefixes are
generated by TLC; each disc is burned, possibly moved, and loaded by the real code; every extent's URL is compared with
the place of the object the specification assigns to the file, and blocks that start no file must be refused.

LEVEL: bounded model checking of the tree model; sampled replay over URL styles, output locations and moves.
"""
from disclib import *


def run(c):
    contract(c)
    cases = []
    pairs = c.gen('Disc', dict(TINY, Names=S('s1', 's2'), MaxDepth=1, MaxOps=2, NumObjs=2, Sizes={1, 5}, Styles=S('abs', 'http'), Targets=set()))
    cases += knobs(pairs, ['url'])
    n = c.pick(250, 3000)
    cases += knobs(c.gen('Disc', dict(SIM, Names=few_names(c, 0), BadNames=set(), Bulk={3, 12}, MaxDepth=3), simulate=n), ['url'],
                   outs=('path', 'ram', 'file', 'esc', 'ver'))
    cases += knobs(c.gen('Disc', dict(SIM, Names=few_names(c, 1), BadNames=set(), Bulk={3}, MaxDepth=3, Styles=REL_STYLES | S('http', 'data', 'sim')),
                         simulate=n), ['url', 'read'], outs=('rel', 'path', 'file', 'esc'), move=True)
    cases += knobs(c.gen('Disc', dict(SIM, Names=few_names(c, 2), BadNames=set(), Bulk={3}, MaxDepth=3, Styles=REL_STYLES | ABS_STYLES),
                         simulate=n), ['url'], outs=('rel', 'http', 'path', 'rel'))
    cases += knobs(c.gen('Disc', dict(SIM, Names=few_names(c, 3), BadNames=set(), Bulk={60, 140}, MaxDepth=2, MaxOps=20), simulate=c.pick(20, 200)), ['url'])
    c.drive('disc', 'disc', cases, jobs=7, case_timeout=60)
