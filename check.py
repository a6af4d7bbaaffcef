#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree (tier from VERIF_TIER or argv[2])."""
import os, sys, time, json, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    run = common.Run(prop, tier)
    import plan
    kind, spec = plan.PLAN[prop]
    try:
        mod = importlib.import_module(kind)
        mod.decide(run, spec)
        rc = run.finish()
    except common.Broken as e:
        print(f'ERROR property={prop}: {e}')
        run.error = str(e)
        run.write()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

main()
