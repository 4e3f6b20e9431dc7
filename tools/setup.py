#!/usr/bin/env python3
"""setup_cmd: check that the toolchain is there and the specifications parse."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
mods = sorted(f for f in os.listdir(SPEC) if f.endswith('.tla'))
r = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY'] + mods, cwd=SPEC,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = r.stdout.decode('utf-8', 'replace')
bad = r.returncode != 0 or '*** Errors' in out or 'Parsing or semantic analysis failed' in out or 'Fatal' in out
if bad:
    i = out.find('*** Errors')
    print(out[max(0, i - 500):i + 2000] if i >= 0 else out[-5000:])
print('%d specification modules %s' % (len(mods), 'do NOT parse' if bad else 'parse'))
sys.exit(1 if bad else 0)
