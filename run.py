#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vh import boot, core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true', help='only check that everything imports')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    boot.load()
    if a.setup:
        for f in sorted(os.listdir(os.path.join(boot.HERE, 'checks'))):
            if f.endswith('.py') and f != '__init__.py':
                importlib.import_module('checks.' + f[:-3])
        print('ready')
        return 0
    return core.main(importlib.import_module('checks.' + a.id), a.tier, a.seed, a.replay)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
