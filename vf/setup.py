#!/usr/bin/env python3
"""Nothing to build ahead: every check rebuilds from /repo. Verifies that the tools are present."""
import shutil, sys
missing = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'cvc5', 'gcc') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'tools present')
sys.exit(1 if missing else 0)
