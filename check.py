#!/usr/bin/env python3-vt
"""check.py ID [--thorough]: decide one property on /repo's current tree."""
import sys, os, importlib, traceback, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    from props import common
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n not in ('__init__', 'common'): importlib.import_module('props.' + n)
    from vt import lib, build
    fn, bounds, assume = common.PROPS[pid]
    run = lib.Run(pid, tier, timeout=20 if tier == 'quick' else 120)
    try: fn(run)
    except build.BuildError as e:
        print('BUILD ERROR ' + str(e)[-3000:]); return 3
    return lib.finish(run, bounds, common.BASE_ASSUMPTIONS + assume)
if __name__ == '__main__':
    try: rc = main()
    except Exception: traceback.print_exc(); rc = 3
    sys.stdout.flush(); os._exit(rc)
