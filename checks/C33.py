"""The command line tool burns, lists and copies faithfully end to end.

TECHNIQUE: TLA+ (spec/Cli.tla, over the disc of spec/Disc.tla): a list of files is burned, or not when something is wrong with it,
and commands follow while sources go away and the disc is cut; TLC gives the outcome of each. The histories are replayed with
the built tool in a scratch directory, in every cache mode, and its exit status, output and files are compared.

LEVEL: exhaustive single commands of tiny discs; sampled histories.
"""
import random

from vlib import *
from disclib import S, SIM, TINY, NAMES, few_names

FLAWS = S('short', 'size', 'quote', 'uneven', 'nocsv', 'absent', 'nodir')


def run(c):
    tiny = dict(TINY, Names=S('s1', 's2'), Targets=set(), MaxOps=1, MaxDepth=2, Absent=S('s9'), MaxCmd=1, Flaws=FLAWS, Hurts=S('gone', 'cut'))
    c.model_check('Cli', dict(tiny, MaxCmd=2), ['NoDisc', 'OnlyBurned'])
    cases = c.gen('Cli', tiny)
    rnd = random.Random(c.seed)
    rnd.shuffle(cases)
    cases = cases[:c.pick(150, 10000)]
    for i in range(c.pick(4, 24)):
        k = dict(SIM, Targets=set(), Dots=set() if i % 2 else S('', '.', '..'), ExtNames=SIM['ExtNames'] - S('e4') if i % 2 else set(), BadNames=set() if i % 4 else SIM['BadNames'], MaxDepth=4,
                 MaxOps=(4, 8)[i % 2], NumObjs=3, Names=few_names(c, i), Sizes=set(range(8)), Styles=S('abs', 'path', 'http', 'data', 'esc', 'rel', 'query'), Bulk={5, 40},
                 Absent=S('s9', 'w3'), MaxCmd=12, Flaws=FLAWS, Hurts=S('gone', 'cut'))
        cases += c.gen('Cli', k, simulate=c.pick(50, 200), depth=60, seed=c.seed * 100 + i)
    for t in cases:
        t.update(seed=rnd.randrange(1 << 30), before=rnd.randrange(4) == 0, out='path', cache='nop', bsize=4096)
    c.drive('cli', 'cli', cases, jobs=7, case_timeout=120, env={'VDISC_BIN': c.build_cli()})
