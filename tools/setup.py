#!/usr/bin/env python3
"""Sanity check of the offline toolchain; every check builds what it needs by itself."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = subprocess.run(["cargo", "build", "--offline", "--profile", "release", "--lib"], cwd=os.path.join(HERE, "harness"),
                   env=dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=os.path.join(HERE, "target")))
sys.exit(p.returncode)
