'write properties.jsonl and MANIFEST.json from mc/props.py (a property is claimed when its check module exists)'

import glob
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from mc.props import PROPS # pylint: disable=wrong-import-position

NA = {}


def main():
    'entry point'

    checks = []
    missing = []

    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')

            if glob.glob(os.path.join(VERIF, 'mc', p['id'].lower() + '_*.py')):
                checks.append({'property': p['id'], 'quick_cmd': f'bash run.sh {p["id"]} quick',
                               'thorough_cmd': f'bash run.sh {p["id"]} thorough', 'technique': p['technique'],
                               'level': 'model_checking', 'level_note': p['note']})
            else:
                missing.append({'property': p['id'], 'reason': NA.get(p['id'], 'its check is not built yet')})

    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing}, f, indent=1)
        f.write('\n')

    print(len(checks), 'claimed', [m['property'] for m in missing])


if __name__ == '__main__':
    main()
