#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on the current tree of /repo
   check.py --setup                     builds everything once"""
import os, sys
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import traceback
import vlib


def main():
    if sys.argv[1] == '--setup':
        import setup
        return setup.main()
    prop = sys.argv[1]
    import registry
    fn, level = registry.find(prop)
    chk = vlib.Check(prop, level)
    try:
        fn(chk)
    except vlib.Mismatch as m:
        chk.violation(m.what, m.data)
    except vlib.ToolError as e:
        print('%s: error of the check: %s' % (prop, e))
        if not chk.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not chk.violations:
            return 2
    return chk.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
