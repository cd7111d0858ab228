#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property of /repo's current source statically.

exit 0: the property holds on everything analysed (listed known findings are printed, not alarmed on)
exit 1: a violation (one "VIOLATION property=ID replay=PATH" line per offending construct)
exit 2: the analysis itself could not be carried out (an anchor of the rule vanished, a file does not parse)
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from checks import base  # noqa: E402

if __name__ == "__main__":
    sys.exit(base.main(sys.argv[1:]))
