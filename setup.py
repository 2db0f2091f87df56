#!/usr/bin/env python3
"""Builds the executor once, so that the first check does not have to (each check builds what it needs anyway)."""
import check
check.sh(["cargo", "build", "--offline", "--release", "--quiet", "--target-dir", check.V + "/target/engine"], check.V + "/engine", 1200, "engine build")
print("ok")
