#!/usr/bin/env python3
"""check.py <property>            run the check of a property (VERIF_SEED, VERIF_TIER)
   check.py replay <file>         re-execute a recorded violation"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
sys.dont_write_bytecode = True
import vlib


def engine(prop):
    if prop in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P24'):
        import gencheck
        return gencheck
    import opcheck
    return opcheck


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
        sys.argv.remove('--thorough')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if sys.argv[1] == 'setup':
        # nothing persists between runs: checks build what they need; this only verifies the tools
        import shutil
        missing = [t for t in ('g++', 'ar') if not shutil.which(t)]
        print('missing tools: %s' % missing if missing else 'ok')
        return 1 if missing else 0
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        ctx = vlib.Ctx(d['property'], tier, d.get('seed', seed))
        try:
            return engine(d['property']).replay(ctx, d)
        finally:
            ctx.cleanup()
    prop = sys.argv[1]
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        for l in vlib.known_findings():
            if 'property=%s ' % prop in l:
                print('KNOWN-FINDING: ' + l)
        return engine(prop).check(ctx)
    except vlib.BuildError as e:
        print('BUILD ERROR: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        ctx.cleanup()


if __name__ == '__main__':
    sys.exit(main())
