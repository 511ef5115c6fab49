#!/usr/bin/python3
"""setup_cmd: checks that the tools the checks need are present.  Nothing is built ahead: every
check builds what it needs from /repo's working tree."""
import shutil
import sys

missing = [t for t in ("python3", "node", "gcc", "cargo") if not shutil.which(t)]
print("missing tools:", missing or "none")
sys.exit(0)
