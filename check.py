"""Entry point: check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot           # noqa: E402
boot.install()
boot.import_sporco()
from sim import engine         # noqa: E402
import importlib               # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = importlib.import_module('sim.props.' + a.prop.lower())
    if a.replay:
        return engine.run_replay(prop, a.prop, a.replay)
    return engine.run_check(prop, a.prop, a.tier, a.seed, a.runs, a.jobs, a.v, a.start)


if __name__ == '__main__':
    sys.exit(main())
