#!/opt/venv/bin/python
"""check.py PROPERTY | check.py --replay FILE | check.py --one PROPERTY INDEX (prints one run)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim import harness                      # noqa: E402
from sim.counts import RULES, RUNS           # noqa: E402


def main(argv):
    if argv[:1] == ['--replay']:
        return harness.replay(argv[1])
    seed = os.environ.get('VERIF_SEED', '1')
    if argv[:1] == ['--one']:
        return one(argv[1], seed, int(argv[2]))
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    quick, minutes = RUNS[prop]
    if tier == 'thorough':
        count, budget = 10 ** 9, float(os.environ.get('VERIF_BUDGET', minutes * 60))
    else:
        count, budget = int(os.environ.get('VERIF_RUNS', quick)), 600
    return harness.check(prop, tier, seed, count, budget, RULES[prop])


def one(prop, seed, i):
    import json
    import tempfile
    from sim import env
    env.preload()
    plan = harness.make_plan(prop, seed, i)
    print(json.dumps(plan['cfg'])[:3000])
    with tempfile.TemporaryDirectory() as d:
        vs, runs = harness.judge(plan, d)
    for run in runs:
        for r in run.results:
            print(r.i, json.dumps(r.op)[:300])
            print('     ', r.show()[:200], r.harm, r.tb)
        if '-v' in sys.argv:
            for item in run.w.log:
                print('   ', item)
    for v in vs:
        print(v)
    return 1 if vs else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
