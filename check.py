#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] [--seed N]   |   check.py --replay FILE"""
import argparse
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))


def load(prop):
    import checks_mesh
    mods = [checks_mesh]
    for m in ('checks_hist', 'checks_stl', 'checks_pick', 'checks_struct', 'checks_random', 'checks_stencil', 'checks_solver'):
        try:
            mods.append(__import__(m))
        except ImportError as e:
            if m not in str(e):
                raise
    for m in mods:
        if hasattr(m, prop):
            return getattr(m, prop)()
    raise SystemExit('no check for ' + prop)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true', help='imports the tree and shows that a seed is one repeatable execution')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
    import env
    env.setup()
    import driver
    if a.selftest:
        for p in ('C01', 'C02'):
            c = load(p)
            for i in range(3):
                spec = c.gen(i, a.seed, 'quick')
                d = [c.execute(spec)['digest'] for _ in range(2)]
                assert d[0] == d[1], (p, i, d)
        print('selftest ok')
        sys.exit(0)
    if a.replay:
        import json
        sys.exit(driver.replay(load(json.load(open(a.replay))['property']), a.replay))
    sys.exit(driver.main(load(a.prop), a.tier, a.seed))


main()
