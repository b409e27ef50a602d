#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property
   check.py --setup                              build the exporters
   check.py --all                                every claimed property"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vlib import build, prop


def main():
    a = sys.argv[1:]
    if '--tier' in a:
        i = a.index('--tier')
        os.environ['VERIF_TIER'] = a[i + 1]
        del a[i:i + 2]
    if a == ['--docs']:
        from checks import catalog
        catalog.write()
        return 0
    if a == ['--setup']:
        build.ensure_tools()
        print('tools ready')
        return 0
    from checks import registry
    if a == ['--all']:
        import subprocess
        rc = 0
        for p in registry.PROPS:
            r = subprocess.call([sys.executable, os.path.abspath(__file__), p])
            rc = rc or r
        return rc
    if len(a) != 1 or a[0] not in registry.PROPS:
        print(__doc__)
        return 2
    mod, fn, level, floor = registry.PROPS[a[0]]
    ck = prop.Check(a[0], level)
    m = importlib.import_module('checks.' + mod)
    getattr(m, fn)(ck)
    return ck.finish(floor)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
