#!/usr/bin/env python3
"""Checks that the tools which the checks need are there. The checks build on their own."""
import os, subprocess, sys
os.environ["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "")
for tc in ("nightly-2023-04-01-x86_64-unknown-linux-gnu", "stable-x86_64-unknown-linux-gnu", "nightly-x86_64-unknown-linux-gnu"):
    r = subprocess.run(["rustc", "+" + tc, "--version"], capture_output=True, text=True)
    print(tc, r.stdout.strip() or r.stderr.strip())
    if r.returncode:
        sys.exit(1)
