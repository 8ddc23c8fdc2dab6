'command line: main.py PROP [quick|thorough] | main.py --replay FILE'

import glob
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from mc import engine # pylint: disable=wrong-import-position


def main():
    'entry point'

    engine.setup_process(quiet=False)

    if sys.argv[1] == '--replay':
        return engine.replay(sys.argv[2])

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    matches = glob.glob(os.path.join(HERE, prop.lower() + '_*.py'))
    assert len(matches) == 1, f'no check module for {prop}: {matches}'
    modname = 'mc.' + os.path.basename(matches[0])[:-3]
    budget = float(os.environ.get('MC_BUDGET', 600 if tier == 'quick' else 840))

    return engine.explore(modname, tier, budget)


if __name__ == '__main__':
    sys.exit(main())
