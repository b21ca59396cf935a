#!/usr/bin/env python3
"""setup_cmd: nothing is fetched; verifies the tools and prebuilds nothing (each check builds from /repo's tree)."""
import shutil, sys
miss = [t for t in ('g++', 'gcc', 'make', 'valgrind') if not shutil.which(t)]
if miss:
    print('missing: ' + ' '.join(miss)); sys.exit(1)
print('ok')
