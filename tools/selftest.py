#!/usr/bin/env python3
"""Determinism of the simulator: executes plans (with faults) several times, in fresh interpreters run
alone or eight at a time, and compares the digests of their event traces.

  selftest.py [N]      N plans per property (default 6)
"""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402


def child(prop, n, hashseed):
    """Digests of n plans of a property, each with its first fault variants"""
    check.setup_sim()
    from props.registry import PROPS
    from sim import engine
    from worlds import base
    s = engine.Search(prop, PROPS[prop], 777, hashseed, float('inf'))
    res = []
    try:
        for i in range(n):
            rng, prof, plan = s.gen(i)
            w = engine.execute(plan, record=True)
            res.append(w.digest.hexdigest())
            for _ in range(2):
                p = engine.fault_variant(rng, plan, w.recorded, prof)
                if p is not None:
                    res.append(engine.execute(p).digest.hexdigest())
    finally:
        base.cleanup_scratch()
    print(json.dumps(res))


def spawn(prop, n, hashseed):
    out = subprocess.run([check.PYTHON, os.path.abspath(__file__), '--child', prop, str(n), str(hashseed)], env=check.child_env(hashseed),
                         stdout=subprocess.PIPE, check=True)
    return json.loads(out.stdout.decode().strip().split('\n')[-1])


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
    total = bad = 0
    with open(os.path.join(HERE, 'props', 'claimed.json')) as f:
        props = sorted(json.load(f))
    jobs = [(p, n, h) for p in props for h in (1, 4000000000)]
    with ThreadPoolExecutor(8) as ex:
        first = list(ex.map(lambda j: spawn(*j), jobs))
        second = list(ex.map(lambda j: spawn(*j), jobs[::-1]))[::-1]
    with ThreadPoolExecutor(3) as ex:
        third = list(ex.map(lambda j: spawn(*j), jobs))
    for j, a, b, c in zip(jobs, first, second, third):
        for k, t in enumerate(zip(a, b, c)):
            total += 1
            if len(set(t)) > 1:
                bad += 1
                print('differs', j, k, t)
        if not len(a) == len(b) == len(c):
            bad += 1
            print('lengths differ', j)
    print(f"{total} executions three times each, {bad} differ")
    return 1 if bad else 0


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--child':
        child(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        sys.exit(main())
