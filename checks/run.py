#!/usr/bin/env python3
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def go(pid):
    m = importlib.import_module(pid.lower())
    return common.main(pid, m.check, m.LEVEL, m.RULE, m.ASSUME, getattr(m, "TRUSTED", None))


if __name__ == "__main__":
    sys.exit(go(sys.argv[1]))
