#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "lib"))
import core
import checks

if __name__ == "__main__":
    core.main(checks.REGISTRY)
