#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs from /repo's
working tree. This only verifies that the tools the checks use are there."""
import os, shutil, sys
bad = [t for t in ('g++-12', 'java', 'python3') if not shutil.which(t)]
bad += [f for f in ('/opt/veriftools/tla/tla2tools.jar', '/usr/include/nlohmann/json.hpp') if not os.path.exists(f)]
print('missing: %s' % bad if bad else 'all tools present')
sys.exit(1 if bad else 0)
