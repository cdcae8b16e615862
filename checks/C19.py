"""Requests to a host rotate evenly over its addresses and survive host churn.

TECHNIQUE: TLA+ (spec/RoundRobin.tla): requests to hosts with several addresses and a bounded memory of hosts are
model-checked (even use). Sampled request sequences are sent through the real transport over an in-memory network, and
TLC checks that the recorded addresses are a behaviour of the model (spec/RoundRobinTrace.tla); concurrent requests are
checked for right addresses and even totals.

LEVEL: exhaustive small model; sampled sequences with trace validation.
"""
import random

from vlib import *


def run(c):
    rnd = random.Random(c.seed)
    k = {'NumAddrs': '<- SmallNet', 'MaxHosts': 2, 'MaxOps': c.pick(7, 9), 'Sampled': False}
    c.model_check('RoundRobin', k, ['Even', 'Few'], view='View')
    nets = {'SmallNet': [2, 3, 0], 'OneHost': [5], 'BigNet': [1, 2, 3, 4, 5, 0, 7, 0]}
    for net, mh, ops, n in (('SmallNet', 0, 20, 60), ('SmallNet', 1, 20, 60), ('SmallNet', 2, 20, 60), ('OneHost', 0, 25, 40), ('BigNet', 3, 60, 60),
                            ('BigNet', 0, 80, 60)):
        kk = dict(k, NumAddrs='<- ' + net, MaxHosts=mh, MaxOps=ops, Sampled=True)
        cases = [dict(t, numaddrs=nets[net], maxhosts=mh, v6=rnd.choice(['none', 'all', 'mixed']), close=rnd.random() < .3, ports=rnd.choice([[0], [8080], [0, 8080], [81, 82, 83]]))
                 for t in c.gen('RoundRobin', kk, simulate=c.pick(n, 15 * n), depth=ops + 2)]
        res = c.drive('http', 'rr', cases, jobs=6)
        order = [i for i, r in sorted(res.items()) if r.get('obs')]
        traces = [{'ev': res[i]['obs']['ev']} for i in order]
        for i, m in c.validate('RoundRobinTrace', traces, dict(kk, MaxOps=0), spec='TSpec'):
            c.violation('rr', cases[order[i]], 'request %d went to address %s: not in turn' % (m + 1, traces[i]['ev'][:m + 1][-12:]))
    churn = []
    for _ in range(c.pick(80, 1500)):
        hosts = rnd.choice([1, 3, 10, 40])
        addrs = [rnd.choice([1, 1, 2, 3, 6, 0]) for _ in range(hosts)]
        reqs = [rnd.randrange(hosts) + 1 for _ in range(300)]
        churn.append({'numaddrs': addrs, 'maxhosts': rnd.choice([0, 1, 2, 5]), 'reqs': reqs, 'v6': rnd.choice(['none', 'all', 'mixed']), 'close': rnd.random() < .5,
                      'ports': rnd.choice([[0], [81], [0, 81, 8080]]), 'workers': rnd.choice([2, 8, 30]), 'faildial': rnd.choice([0, 0, 1])})
    c.drive('http', 'churn', churn, jobs=4, racy=True)
