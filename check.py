#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   decides one property
   check.py --replay <file>                      re-runs a replay file"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.setrecursionlimit(20000)


def load(prop):
    return importlib.import_module('props.%s' % prop.lower()).Check


def main(argv):
    os.chdir(HERE)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            data = json.load(f)
        c = load(data['property'])('quick', data.get('seed') or 1)
        if data['kind'] == 'obligation':
            for o in data['failed_obligations']:
                print(json.dumps(o, indent=1))
            return c.run()
        c.setup_cases()
        v = c.replay(data['data'])
        print('reproduced: %s' % v.what if v else 'does not fail any more')
        return 1 if v else 0
    args = [a for a in argv if not a.startswith('--')]
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
        args.remove(tier)
    return load(args[0])(tier, seed).run()


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0' or \
            'VERIF_HASHSEED' not in os.environ:
        env = dict(os.environ, PYTHONHASHSEED='0', VERIF_HASHSEED='1')
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    sys.exit(main(sys.argv[1:]))
