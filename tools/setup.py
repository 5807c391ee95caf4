#!/usr/bin/env python3
"""Checks that the tools are there; each check builds what it needs itself."""
import os, subprocess, sys
ok = True
for p in ("/opt/veriftools/go1.25.14/bin/go", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(p):
        print("missing", p)
        ok = False
subprocess.run(["java", "-version"], check=True, capture_output=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
