#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness against /repo's current working tree, runs the workload and
monitors of one property and reports: exit 0 held, exit 1 with VIOLATION lines,
exit 2 the check itself failed."""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.core import Ctx, CheckError


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-build', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        if not a.no_build:
            ctx.build()
        mod = importlib.import_module('checks.' + a.prop)
        if a.replay:
            ctx.replay = json.load(open(a.replay))
            ctx.quick = ctx.replay.get('tier', 'quick') == 'quick'
        mod.run(ctx)
        code = ctx.finish()
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (a.prop, e))
        code = 2
    except Exception:
        traceback.print_exc()
        print('CHECK-ERROR property=%s internal error' % a.prop)
        code = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
