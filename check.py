#!/usr/bin/env python3
"""python3 check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]: decides one property, see DESIGN.md"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim.master import main

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR " + traceback.format_exc().strip().splitlines()[-1])
        sys.exit(2)
