#!/usr/bin/env python3
"""setup_cmd: check that the tools are there and build the framework once (the checks rebuild what they need)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import check
for t in ("z3", "cvc5", "cargo"):
    subprocess.run([t, "--version"], check=True, env=check.env(), stdout=subprocess.DEVNULL)
check.build(["h_tx"])
