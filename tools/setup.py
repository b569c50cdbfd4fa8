#!/usr/bin/env python3
"""Nothing to build: checks that the tools the checks use are there."""
import os
import shutil
import sys

need = ["/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar"]
missing = [p for p in need if not os.path.exists(p)]
missing += [p for p in ("java", "gcc") if not shutil.which(p)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "evidence"), exist_ok=True)
