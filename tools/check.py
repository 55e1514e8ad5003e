#!/usr/bin/env python3
"""check.py <property id>: exit 0 held, 1 VIOLATION, 2 tool error"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    if sys.argv[1] == '--setup':
        vlib.build()
        return 0
    pid = sys.argv[1]
    import props
    chk = vlib.Check(pid)
    chk.binary = vlib.build()
    props.CHECKS[pid](chk)
    return chk.finish()


try:
    sys.exit(main())
except vlib.ToolError as e:
    vlib.log('TOOL ERROR:', e)
    sys.exit(2)
except Exception:
    traceback.print_exc()
    sys.exit(2)
