#!/usr/bin/env python3-vt
"""check.py <property id> [--units substring]: decides one property on /repo's current working tree"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
def main():
    pid = sys.argv[1]
    m = importlib.import_module("contracts.p" + pid)
    return m.main()
if __name__ == "__main__": sys.exit(main())
