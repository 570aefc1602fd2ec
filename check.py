"""
python check.py C01 [--tier quick|thorough] [--sub NAME] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1, with a VIOLATION line:
it is broken. Exit 2: error of the check.
"""

import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from harness import boot, core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--sub')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--worker')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--out')
    args = ap.parse_args()

    pid = args.property
    boot.setup_paths()
    boot.setup_env(0)
    module = f'checks.{pid.lower()}'
    if args.worker:
        # the optimization level has to be set before jax starts; checks import
        # jax lazily through harness.sut
        importlib.import_module(module)
        s = core.REGISTRY[pid][args.worker]
        boot.setup_env(s.opt, s.x64)
        core.worker(pid, args.worker, args.shard, args.tier, args.seed, args.out)
        return 0
    if args.replay:
        import json
        importlib.import_module(module)
        with open(args.replay) as f:
            s = core.REGISTRY[pid][json.load(f)['subcheck']]
        boot.setup_env(s.opt, s.x64)
        return core.replay(pid, args.replay)
    importlib.import_module(module)
    return core.run_check(pid, args.tier, args.seed, args.sub, args.jobs)


if __name__ == '__main__':
    sys.exit(main())
