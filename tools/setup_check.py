#!/usr/bin/env python3
"""setup_cmd: the checks build what they need themselves, so this only confirms
that the compilers they use are present."""
import shutil
import sys

missing = [t for t in ('g++', 'clang++', 'python3') if not shutil.which(t)]
print('missing: ' + ' '.join(missing) if missing else 'toolchain present')
sys.exit(1 if missing else 0)
