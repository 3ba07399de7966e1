#!/usr/bin/env python3
"""Check that the tools the checks need are there, and parse every spec."""
import glob
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = True
for t in ('g++', 'java', 'javac', 'python3'):
    if not shutil.which(t):
        print('missing tool', t)
        ok = False
os.makedirs(ROOT + '/evidence', exist_ok=True)
jar = '/opt/veriftools/tla/tla2tools.jar'
for f in sorted(glob.glob(ROOT + '/spec/*.tla')):
    r = subprocess.run(['java', '-DTLA-Library=' + ROOT + '/spec', '-cp',
                        jar + ':/opt/veriftools/tla/CommunityModules-deps.jar',
                        'tla2sany.SANY', f], capture_output=True, text=True)
    bad = r.returncode != 0 or '*** Errors' in r.stdout
    print(os.path.basename(f), 'BAD' if bad else 'ok')
    if bad:
        print(r.stdout[-2000:])
    ok = ok and not bad
sys.exit(0 if ok else 1)
