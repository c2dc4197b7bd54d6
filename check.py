#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property statically.

exit 0: held; 1: violated (VIOLATION line); 2: no answer."""
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'props'))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    import facts
    import checklib
    import absint
    ctx = None
    try:
        P = facts.load()
        m = importlib.import_module(prop.lower())
        ctx = checklib.Ctx(prop, tier, P)
        m.run(ctx)
        if not ctx.functions:
            raise checklib.CheckError('nothing was analysed')
        return checklib.finish(ctx, getattr(m, 'LEVEL', 'other'), m.EXPLANATION, t0)
    except (facts.ToolError, checklib.CheckError, absint.Overflow) as e:
        if ctx is not None and ctx.viol:
            # what was found before the analysis stopped still stands
            ctx.assume('analysis stopped early: %s' % e)
            r = checklib.finish(ctx, getattr(m, 'LEVEL', 'other'), m.EXPLANATION, t0)
            if r == 1:
                return r
        print('%s: no answer: %s' % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
