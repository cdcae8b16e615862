"""Garbage collection.

TECHNIQUE: TLA+ (spec/Gc.tla): the collection loop with changing goals and vanishing blocks is model-checked; every
behaviour of the small model is replayed against the real collector on scratch cache directories (with other files around
and active readers), comparing what is left. The goal parser and decision are checked against the same rule.

LEVEL: exhaustive for caches of a few entries; sampled for larger ones.
"""
import random
from vlib import *


def run(c):
    k = {'MaxEntries': 4, 'MaxGoals': 2, 'MaxBurst': 2}
    c.model_check('Gc', k, ['Accounted', 'GoalMet', 'JustEnough'], properties=['Ends'])
    ts = c.gen('Gc', k)
    big = c.gen('Gc', {'MaxEntries': c.pick(20, 60), 'MaxGoals': 1, 'MaxBurst': 9})
    rng = random.Random(c.seed)
    ts += rng.sample(big, min(len(big), c.pick(250, 3000)))
    cases, seen = [], set()
    for i, t in enumerate(ts):
        d = {'entries': t['entries'], 'goals': t['goals'], 'vanish': [t['burst'][0]] * t['burst'][1], 'left': t['left']}
        if str(d) in seen:
            continue
        seen.add(str(d))
        cases.append(dict(d, junk=i % 2 == 0, readers=False, dense=[0, 1, 2, 3][i % 4], empty=[0, 0, 3, 40][i // 4 % 4]))
    cases += [{'entries': n, 'goals': [g], 'vanish': [], 'left': 0, 'junk': True, 'readers': True}
              for n in (3, 10, 30) for g in (0, 2, 9) if g < n for _ in range(c.pick(2, 20))]
    c.drive('cache', 'gc', cases, jobs=8, case_timeout=60)
    # the goal: text and decision
    goals = []
    for text, kind, v in [('100MiB', 'abs', 100 << 20), ('1GiB', 'abs', 1 << 30), ('0B', 'abs', 0), ('4KiB', 'abs', 4096), ('1MB', 'abs', 10 ** 6),
                          ('10%', 'pct', 1000), ('0%', 'pct', 0), ('100%', 'pct', 10000), ('12.5%', 'pct', 1250), ('0.5%', 'pct', 50),
                          ('101%', 'bad', 0), ('-1%', 'bad', 0), ('ten', 'bad', 0), ('%', 'bad', 0), ('10%%', 'bad', 0), ('1e1%', 'bad', 0), ('', 'bad', 0)]:
        goals.append({'text': text, 'kind': kind, 'value': v})
    c.drive('cache', 'goal', goals, jobs=4)
