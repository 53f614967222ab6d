#!/usr/bin/env python3
"""Nothing to build: the checks compile from source on every run. Confirms that the tools they need are present."""
import shutil, sys
missing = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'clang', 'objcopy', 'ar') if not shutil.which(t)]
print('missing tools: %s' % missing if missing else 'tools present')
sys.exit(1 if missing else 0)
