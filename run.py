#!/usr/bin/env python
"""Entry point of all checks: run.py <property> [--tier quick|thorough] [--replay file]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.core import main

if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
