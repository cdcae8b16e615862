"""Joined and sliced objects.

TECHNIQUE: TLA+ (spec/ObjRead.tla): the read contract is model-checked with TLC; every single read of every small
object and random read histories generated by TLC are replayed on storage.Concat, the concurrent variant, nested
joins and slices, and each response is compared with the one the specification gives.

LEVEL: bounded model checking of the contract, exhaustive replay for up to 3 parts of up to 2 units, sampled
replay of longer histories and of larger parts.
"""
from vlib import q


def run(c):
    kinds = {q('concat'), q('concurrent'), q('nested')}
    base = dict(Kinds=kinds, WithBad=True, WithSlice=True, SliceFrom=set(range(20)))
    # the contract itself
    c.model_check('ObjRead', dict(base, Kinds={q('concat')}, MaxParts=c.pick(2, 3), MaxSize=2, MaxOff=3, MaxLen=3, MaxOps=2, Single=False),
                  ['PosInside', 'RunIsPrefix', 'ResponsesRight'])
    # every single positional read of every small object
    full = c.gen('ObjRead', dict(base, WithSlice=False, MaxParts=3, MaxSize=2, MaxOff=c.pick(6, 7), MaxLen=c.pick(5, 7), MaxOps=1, Single=True), workers=1)
    slices = c.gen('ObjRead', dict(base, Kinds={q('concat')}, MaxParts=2, MaxSize=2, MaxOff=c.pick(3, 4), MaxLen=c.pick(4, 5), MaxOps=1, Single=True), workers=1)
    # histories
    seqs = c.gen('ObjRead', dict(base, MaxParts=c.pick(3, 4), MaxSize=3, MaxOff=9, MaxLen=7, MaxOps=12, Single=False),
                 simulate=c.pick(1500, 20000), depth=14)
    cases = full + slices + seqs
    for i, t in enumerate(cases):
        t['unit'] = (1, 1, 7, 4099)[(i + c.seed) % 4]
    c.drive('core', 'concat', cases, jobs=4)
    c.assumptions.append('a read may report end-of-file together with the last bytes or only on the next read')
