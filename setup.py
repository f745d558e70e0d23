#!/usr/bin/env python3
"""Builds the executor and the harness dependencies (checks build whatever is missing themselves)."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
E = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
B = os.environ.get("VP_BUILD", os.path.join(V, "build"))
r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=dict(E, CARGO_TARGET_DIR=os.path.join(B, "engine")))
r2 = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--lib"], cwd=os.path.join(V, "harness"), env=dict(E, CARGO_TARGET_DIR=os.path.join(B, "harness")))
r3 = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--lib"], cwd=os.path.join(V, "conc"), env=dict(E, CARGO_TARGET_DIR=os.path.join(B, "conc")))
sys.exit(r.returncode or r2.returncode or r3.returncode)
