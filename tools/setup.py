"""Checks that the tools the framework needs are there; every check builds what it needs by itself."""
import shutil
import sys
missing = [t for t in ("gcc", "clang", "python3", "python3-vt", "git") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("ok")
