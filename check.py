#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
sys.dont_write_bytecode = True
import registry

if __name__ == "__main__":
    sys.exit(registry.main(sys.argv[1]))
