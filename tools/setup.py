#!/usr/bin/env python3
"""Setup: nothing is prebuilt (each check builds what it needs from /repo's
current tree); this only says whether the tools the checks need are here."""
import shutil, sys
miss = [t for t in ('g++', 'gcc', 'gfortran', 'valgrind', 'mpirun', 'mpicxx', 'git') if not shutil.which(t)]
if miss:
    print('missing tools:', ' '.join(miss))
    sys.exit(1)
print('ok')
