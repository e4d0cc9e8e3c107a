#!/opt/venv/bin/python
"""
usage: run.py <property-id> [--tier quick|thorough] [--replay FILE] [--case INDEX]

Runs one monitored workload against /repo's working tree.
exit 0: held on everything observed;  exit 1 + VIOLATION line: broken;  exit 2: inconclusive / harness error.
"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PEANO_REPO', '/repo')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    args = ap.parse_args()

    # a fresh interpreter state for the code under test: no stale bytecode, fixed hash seed
    if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        env['PYTHONPYCACHEPREFIX'] = '/nonexistent-pycache'
        os.execve(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv, env)

    sys.path[:0] = [REPO, HERE]
    from vlib import engine
    name = [f[:-3] for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith(args.prop.lower() + '_')]
    if len(name) != 1:
        print('no such check:', args.prop)
        return 2
    mod = importlib.import_module('checks.' + name[0])
    return engine.main(mod, args, HERE, REPO)


if __name__ == '__main__':
    sys.exit(main())
