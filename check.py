#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]    decides one property of /repo's current source"""
import argparse
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from f2c import report, load


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    ctx = report.Context(a.id, a.tier)
    try:
        own = os.path.join(HERE, 'checks', a.id.lower() + '.py')
        mod = importlib.import_module('checks.' + (a.id.lower() if os.path.exists(own) else 'table'))
        mod.check(ctx)
    except load.BrokenAnalysis as ex:
        print('BROKEN property=%s %s' % (a.id, ex))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('BROKEN property=%s analysis failed' % a.id)
        sys.exit(2)
    sys.exit(ctx.finish())


if __name__ == '__main__':
    main()
