#!/usr/bin/env python3
"""Checks that the tools the checks need are there; the checks build everything themselves."""
import shutil, sys
miss = [t for t in ("gcc", "g++", "ar", "objcopy") if not shutil.which(t)]
print("missing: " + " ".join(miss) if miss else "ok")
sys.exit(1 if miss else 0)
