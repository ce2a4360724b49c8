#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.
Exit 0: held on everything explored; 1: violated (a VIOLATION line names the
replay file); 2: the check could not do its work."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib, props


def main():
    pid = sys.argv[1]
    c = vlib.Ctx(pid)
    try:
        props.CHECKS[pid](c)
        rc = c.finish(assumptions=props.ASSUME.get(pid, ()) if hasattr(props, 'ASSUME') else ())
    except vlib.CheckError as e:
        print('ERROR', e, file=sys.stderr)
        rc = c.finish() if c.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.close()
    sys.exit(rc)


main()
