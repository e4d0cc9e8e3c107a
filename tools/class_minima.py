"""Regenerates vlib/minima.json: minimal dilations of whole curve classes, by brute force with the reference model only."""
import json
import os
import random
import sys
from fractions import Fraction as F
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
from vlib import gen, classes   # noqa

NAMES = ['hil', 's3', 'b1', 'b3', 'b4', 'b5', 'b6', 'b7', 'b8', 'bo', 'c3', 'c4', 'c5', 'C', 'D', 'E', 'Fg']
METRICS = ['l1', 'l2', 'l2_squared', 'linf']


def one(job):
    name, metric = job
    dim, div, gates, cd = gen.config(name)
    lo, up = classes.minimum(dim, div, gates, metric, cd, F(1, 1000), random.Random(1))
    print(name, metric, float(lo), float(up), flush=True)
    return name, metric, str(lo), str(up)


if __name__ == '__main__':
    jobs = [(n, m) for n in reversed(NAMES) for m in METRICS if m != 'l2' or gen.CONFIGS[n][0] % 2 == 0]
    with Pool(7) as p:
        out = p.map(one, jobs, chunksize=1)
    table = {}
    for n, m, lo, up in out:
        table.setdefault(n, {})[m] = [lo, up]
    json.dump(table, open(os.path.join(HERE, 'vlib', 'minima.json'), 'w'), indent=1, sort_keys=True)
