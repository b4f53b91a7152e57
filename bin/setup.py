#!/usr/bin/env python3
"""setup_cmd: sanity-checks the tool chain; every check builds what it needs itself."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "ninja", "git"):
    if not shutil.which(t):
        print("missing tool", t); sys.exit(2)
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
open(os.path.join(V, "build", "setup.ok"), "w").write("ok\n")
