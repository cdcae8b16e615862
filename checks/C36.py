"""The mount command serves the disc read-only until unmounted or signalled, then ends cleanly.

TECHNIQUE: TLA+ (spec/Mount.tla over spec/Disc.tla, and spec/MountLife.tla for the life of the process, with liveness): TLC
generates discs, requests, failing starts and every way to end. The built tool runs the histories without privileges and with a
stand-in for fusermount; the harness speaks the kernel's protocol and judges answers, mount options, calls and exit status.

LEVEL: exhaustive model of the process's life and of short histories on tiny discs; sampled longer histories.
"""
import random

from vlib import *
from disclib import S, SIM, TINY, few_names

FLAWS = S('nodisc', 'nodir', 'cut', 'refused')


def run(c):
    c.model_check('MountLife', dict(MaxAsked=2), ['TypeOK', 'Clean', 'Failure', 'Stays'], properties=['Ends'])
    tiny = dict(TINY, Names=S('s1'), MaxOps=1, MaxDepth=2, Absent=S('s9'), MaxReq=1, Flaws=FLAWS, Late={0, 2})
    c.model_check('Mount', dict(tiny, MaxReq=2), ['Calls', 'Served', 'ReadOnly', 'Ended'])
    rnd = random.Random(c.seed)
    cases = c.gen('Mount', tiny)
    rnd.shuffle(cases)
    cases = cases[:c.pick(120, 2000)]
    for i in range(c.pick(3, 20)):
        k = dict(SIM, Rules=S('portable'), ExtNames=set(), BadNames=set(), Dots=set(), MaxDepth=3, MaxOps=5, NumObjs=3, Names={n for n in few_names(c, i) if n[1] != 'v'},
                 Sizes=set(range(8)),
                 Styles=S('abs', 'path', 'http', 'data', 'esc'), Bulk={5, 60}, Absent=S('s9', 'w3'), MaxReq=25, Flaws=FLAWS, Late={0, 1, 3})
        cases += c.gen('Mount', k, simulate=c.pick(50, 150), depth=60, seed=c.seed * 100 + i)
    for i, t in enumerate(cases):
        t.update(seed=rnd.randrange(1 << 30), conc=i % 2 == 1, out='path', cache='nop', declared=i % 4 == 0, bsize=4096)
    tool = c.build_cli()
    c.drive('mount', 'mount', cases, jobs=7, case_timeout=100, env={'VDISC_BIN': tool})
