"""The block device command pool runs every command once, for its own device.

TECHNIQUE: TLA+ (spec/CmdPool.tla): devices, workers with their buffers, ending inputs and stopping; TLC checks the safety
and liveness of all interleavings. Schedules of the model are replayed on the real pool with handlers held by the harness,
which waits for the progress the model demands after every step; the recorded histories are validated with TLC
(spec/CmdPoolTrace.tla).

LEVEL: exhaustive for few commands in the model; sampled schedules on the real pool.
"""
import random

from vlib import *


def run(c):
    rnd = random.Random(c.seed)
    k = {'NumDev': 2, 'PerDev': 2, 'Workers': 2, 'WithStop': True}
    c.model_check('CmdPool', dict(k, PerDev=c.pick(2, 3)), ['AtMost', 'OwnBuffer', 'ClosedAfter', 'NothingRuns'])
    c.model_check('CmdPool', dict(k, PerDev=1), ['AtMost'], properties=['Answered', 'Handled', 'Ends', 'StopEnds'])
    c.model_check('CmdPool', dict(k, Workers=1), ['AtMost'], properties=['Handled', 'StopEnds'])
    groups = {}
    for dev, per, w, n in ((1, 4, 2, 20), (2, 3, 1, 40), (2, 4, 2, 60), (3, 3, 3, 40), (3, 5, 4, 25), (2, 6, 8, 15)):
        for stop in (True, False):
            for t in c.gen('CmdPool', {'NumDev': dev, 'PerDev': per, 'Workers': w, 'WithStop': stop}, simulate=c.pick(n, 20 * n), depth=200, spec='GSpec'):
                for sooner in (False, True):
                    groups.setdefault((dev, per), []).append(dict(t, devs=dev, perdev=per, workers=w, bufsize=rnd.choice([1, 64, 4096]), inbuf=rnd.choice([0, 1, 100]) if sooner else 100, grow=rnd.random() < .4,
                                                                  sooner=sooner, tail=rnd.randrange(4)))
    for (dev, per), cases in sorted(groups.items()):
        # a device may take no command while it waits for a worker
        for x in cases:
            if x['sooner'] and any(s['e'] == 'submit' for s in x['steps']):
                x['inbuf'] = max(x['inbuf'], per)
        res = c.drive('blk', 'pool', cases, mods=True, racy=True)
        order = [i for i, r in sorted(res.items()) if r.get('obs')]
        traces = [{'ev': res[i]['obs']['ev'], 'workers': cases[i]['workers']} for i in order]
        for i, m in c.validate('CmdPoolTrace', traces, {'NumDev': dev, 'PerDev': per, 'Workers': 1, 'WithStop': True}, spec='TSpec'):
            c.violation('pool', {'area': 'blk', 'driver': 'pool', 'case': cases[order[i]], 'env': {}, 'mods': True}, 'event %d of the recorded history is impossible: %s' % (m + 1, traces[i]['ev'][:m + 1]))
