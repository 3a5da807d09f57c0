#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] - run one property's simulation (tier from VERIF_TIER, seed from VERIF_SEED).

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken. Exit 2: the check itself failed.
"""

import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import env  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--replay')
    parser.add_argument('--index', type=int)
    parser.add_argument('--capped', action='store_true')
    parser.add_argument('--dump', action='store_true')
    parser.add_argument('--digests', action='store_true')
    parser.add_argument('--runs', type=int)
    args = parser.parse_args()
    if not os.environ.get('SIM_CHILD'):
        sys.stdout.flush()
        argv = [env.PYTHON, os.path.abspath(__file__), *sys.argv[1:]]
        os.execve(env.PYTHON, argv, env.child_env(os.environ.get('SIM_HASHSEED', '0')))
    from sim import runner
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    prop = importlib.import_module(f'sim.props.{args.property.lower()}')
    begin = time.monotonic()
    try:
        env.import_target()
        env.warm_up()
        if args.replay:
            code = runner.replay(prop, args.replay, args.capped)
        elif args.index is not None:
            code = runner.one(prop, seed, tier, args.index, args.capped, args.dump)
        else:
            code = runner.explore(prop, seed, tier, args.runs, begin, args.digests)
    except Exception:
        import traceback
        traceback.print_exc()
        print(f'CHECK-ERROR property={args.property}')
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
