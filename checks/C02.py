"""Listings of burned discs.

TECHNIQUE: TLA+ (spec/Disc.tla): the tree a sequence of additions builds is model-checked with TLC; all small and many
random trees (bulk directories, names up to several sectors long, files of several extents, links) generated by TLC are
burned with the real builder, loaded, and every listing, walk and resumed iteration is compared with the
specification's tree.

LEVEL: bounded model checking of the tree model; exhaustive replay of two additions over a small name set, sampled
replay of larger discs.
"""
from disclib import *


def run(c):
    contract(c)
    small = c.gen('Disc', dict(TINY, Names=S('s1', 'l1', 'g1'), Rules=S('portable')))
    cases = knobs(small, ['list'])
    n = c.pick(120, 1500)
    for k in range(3):
        cases += knobs(c.gen('Disc', dict(SIM, Names=few_names(c, k), BadNames=set()), simulate=n, seed=c.seed * 10 + k), ['list'],
                       caches=('memwide', 'memwide', 'mem', 'memwide', 'nop'), outs=('path', 'ram'))
    cases += knobs(c.gen('Disc', dict(SIM, Names=NAMES, BadNames=set(), Dots=set(), MaxOps=30, Bulk={140, 200}), simulate=c.pick(25, 300)), ['list'])
    c.drive('disc', 'disc', cases, jobs=7, case_timeout=60)
    c.assumptions.append('the order of entries in a listing is not part of the property')
