#!/usr/bin/env python3
"""check.py <property> [--thorough]: build from /repo and decide one property.  0 held, 1 violation, else error."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, checks

if __name__ == "__main__":
    sys.exit(engine.main(checks.ALL, sys.argv[1:]))
