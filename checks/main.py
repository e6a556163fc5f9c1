#!/usr/bin/env python3
"""check.sh <property> [quick|thorough]: decide one property against /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(pid.lower())
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        mod.check(ctx)
    except vlib.Broken as e:
        if not ctx.violations:
            print('CHECK BROKEN property=%s: %s' % (pid, e))
            return 2
        print('note: stopped early: %s' % str(e)[:500])
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
    return ctx.finish(getattr(mod, 'LEVEL', 'model_checking'), getattr(mod, 'ASSUMPTIONS', []))


sys.exit(main())
