#!/usr/bin/env python3
"""Entry point: run.py <property id>."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "harness"), HERE]
sys.dont_write_bytecode = True

GROUPS = {"T": "tool", "F": "fixinc", "R": "report", "P": "pragma", "M": "mapping", "D": "decide",
          "E": "whole", "N": "naming"}


def main():
    prop = sys.argv[1]
    import lib
    mod = importlib.import_module(GROUPS[prop[0]])
    sys.exit(lib.run_check(prop, mod.CHECKS[prop]))


if __name__ == "__main__":
    main()
