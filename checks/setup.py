#!/usr/bin/env python3
"""The specification and the tools have to be usable, nothing is built."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import core                                                  # noqa: E402

os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
for need in (core.PY, core.JAR):
    if not os.path.exists(need):
        sys.exit('missing: ' + need)
p = subprocess.run(['java', '-cp', core._classpath(), 'tla2sany.SANY',
                    'Trace.tla'], cwd=core.SPEC, capture_output=True,
                   text=True)
if p.returncode or 'Semantic error' in p.stdout:
    sys.exit(p.stdout[-2000:])
print('setup ok')
