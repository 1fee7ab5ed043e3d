#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--count N] [--workers N]
check.py --replay FILE        run one recorded scenario
check.py --setup              make sure that everything can be loaded"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for v in ('COLUMNS', 'LINES', 'PYTHONWARNINGS', 'ES7S_DEBUG'):
    os.environ.pop(v, None)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--count', type=int)
    p.add_argument('--workers', type=int)
    p.add_argument('--no-evidence', action='store_true')
    p.add_argument('--replay')
    p.add_argument('--setup', action='store_true')
    a = p.parse_args()
    from sim import engine, world
    try:
        world.load_repo()
    except BaseException as e:
        print(f'the application cannot be loaded: {type(e).__name__}: {e}')
        return 2
    with engine.Scratch():
        if a.setup:
            ids = sorted(engine.registry())
            print(f'{len(ids)} checks: {" ".join(ids)}')
            return 0
        if a.replay:
            return engine.replay(a.replay)
        return engine.run_check(a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed, a.count, a.workers, not a.no_evidence)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
