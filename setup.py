#!/usr/bin/env python3
"""Nothing has to be built ahead: TLC interprets the specifications and every check builds the compiler from /repo.
Checks that the tools are there, that every specification parses and that the compiler builds."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf
vf.build()
bad = 0
for f in sorted(os.listdir(vf.SPEC)):
    if f.endswith('.tla'):
        r = subprocess.run(['java', '-cp', vf.TLAJARS, 'tla2sany.SANY', f], cwd=vf.SPEC, capture_output=True, text=True)
        if r.returncode:
            bad = 1
            print(f, 'does not parse\n', r.stdout)
print('setup ok' if not bad else 'setup failed')
sys.exit(bad)
