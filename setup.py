#!/usr/bin/env python3
"""Checks that the tools the checks use are installed; nothing is built ahead."""
import shutil, subprocess, sys
bad = [t for t in ("verus", "cargo", "rustc") if not shutil.which(t)]
if bad:
    print("missing tools:", *bad)
    sys.exit(1)
print(subprocess.run(["verus", "--version"], stdout=subprocess.PIPE, text=True).stdout)
