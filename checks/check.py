#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import lib


def main():
    prop = sys.argv[1]
    fam = prop[0]
    import importlib
    mod = importlib.import_module({"D": "dicts", "B": "bufs", "Q": "engine", "E": "encs", "I": "irs", "U": "utils", "S": "schema", "C": "confs", "R": "results"}[fam])
    return mod.run(prop)


if __name__ == "__main__":
    try:
        rc = main()
    except lib.ToolFailure as e:
        print("TOOL-FAILURE %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
