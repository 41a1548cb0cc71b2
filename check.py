#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only kind:index]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]

import harness  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    sys.exit(harness.main(sys.argv[1], sys.argv[2:]))
