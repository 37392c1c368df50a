#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles /repo's current sources itself. This only verifies that the tools are there."""
import shutil, sys, os
missing = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc', 'ar', 'prlimit') if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
if missing:
    sys.exit('missing tools: ' + ', '.join(missing))
print('ok')
