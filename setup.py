#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks need are there. The checks build what they need themselves."""
import shutil, sys
missing = [t for t in ("g++", "gcc", "ninja", "ccache", "rsync", "/usr/bin/cmake", "ld.gold") if not shutil.which(t)]
import yaml  # noqa
print("tools present" if not missing else "missing: %s" % missing)
sys.exit(1 if missing else 0)
