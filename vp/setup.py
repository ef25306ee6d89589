#!/usr/bin/env python3
"""Nothing has to be built ahead: every check rebuilds what it needs. Reports missing tools early."""
import glob, os, shutil, sys
ok = bool(glob.glob(os.path.expanduser("~/.kani/kani-*/bin/cbmc"))) and (shutil.which("cargo") or os.path.exists("/root/.cargo/bin/cargo"))
print("kani and cargo found" if ok else "kani or cargo missing")
sys.exit(0 if ok else 1)
