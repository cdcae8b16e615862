"""On-disc records survive encoding and decoding unchanged.

TECHNIQUE: TLA+ (spec/Records.tla): the byte format of every record kind, written down as an encoder and a decoder; TLC
checks that values come back from their bytes, and generates values at the limits of their fields together with their bytes
and with damaged bytes. The real encoders must produce these bytes and the real decoders these values.

LEVEL: exhaustive over a grid of field limits in the model and replayed; larger values and damaged bytes sampled.
"""
from vlib import *


def run(c):
    kinds = {q(k) for k in ('entries', 'name', 'link', 'dir', 'table')}
    k = {'Kinds': kinds, 'MaxDamage': 0, 'Sampled': False}
    inv = ['RoundTrip', 'AlwaysFit', 'Decodes']
    c.model_check('Records', dict(k, MaxDamage=1), inv)
    ts = c.gen('Records', k)
    big = dict(k, Sampled=True, MaxDamage=3)
    ts += c.gen('Records', big, simulate=c.pick(4000, 60000), depth=10)
    ts += c.gen('Records', dict(big, MaxDamage=0), simulate=c.pick(2000, 20000), depth=10)
    ts += c.gen('Records', dict(big, Kinds={q('pvd')}, MaxDamage=1), simulate=c.pick(300, 3000), depth=10)
    c.drive('rec', 'records', ts, jobs=8)
