"""Block device read commands return exactly the addressed disc bytes.

TECHNIQUE: TLA+ (spec/Scsi.tla): histories of SCSI commands of every form to several devices, inside and outside of the
disc, with blocks of the source failing and recovering; TLC gives the outcome of each. They are replayed through the real
device manager, command pool and handler, with the kernel replaced at the go-tcmu call that opens the device.

LEVEL: exhaustive for single reads of small discs in the model; sampled replay.
"""
import random

from vlib import *

FIRSTS = {0, 1, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536, 65537, 66000, 131071, 2097150, 2097151, 2147480000}


def run(c):
    rnd = random.Random(c.seed)
    k = {'Sizes': {2, 4}, 'NumDev': 1, 'MaxOps': 1, 'Sampled': False, 'Lens': {0, 1, 2, 5}, 'Firsts': {0, 1, 256, 65537, 2147480000}}
    c.model_check('Scsi', dict(k, MaxOps=2), ['DataInside', 'Refused'])
    ts = c.gen('Scsi', k)
    big = dict(k, Sampled=True, NumDev=2, Lens={0, 1, 2, 3, 7, 32, 255, 256, 257, 300}, Firsts=FIRSTS)
    ts += c.gen('Scsi', dict(big, Sizes={1, 2, 255, 256, 257, 300, 1000}, MaxOps=25), simulate=c.pick(150, 2500), depth=40)
    ts += c.gen('Scsi', dict(big, Sizes={300, 65536, 65600, 70000, 2097152, 2200000}, MaxOps=25), simulate=c.pick(150, 2500), depth=40)
    cases = [dict(t, bsize=rnd.choice([512, 2048, 2048, 4096]), workers=rnd.choice([1, 2, 12]), style=i % 2, burst=rnd.choice([1, 4, 30]), seed=rnd.randrange(1 << 30),
                  bad=rnd.choice(['error', 'eof', 'end'])) for i, t in enumerate(ts)]
    c.drive('blk', 'scsi', cases, mods=True, env={'DEVFS': 'devfs', 'SYSFS': 'sysfs'}, case_timeout=60)
