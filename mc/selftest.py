#!/usr/bin/env python3
"""Setup: nothing is kept between runs, so only the tools the checks need are verified to be present."""
import shutil, sys
miss = [t for t in ('cmake', 'ninja', 'gcc', 'g++', 'clang', 'clang++') if not shutil.which(t)]
if miss: print('missing tools: ' + ' '.join(miss)); sys.exit(1)
print('tools present')
