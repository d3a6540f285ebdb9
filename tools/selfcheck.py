#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (each check builds what it needs)."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "python3", "llvm-symbolizer") if not shutil.which(t) and not shutil.which(t + "-18")]
print("missing:", missing) if missing else print("tools present")
sys.exit(2 if missing else 0)
