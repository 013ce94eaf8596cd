#!/usr/bin/env python3
"""Checks that the tools are there and that everything compiles (checks build what they need themselves)."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
for d in ('build', 'evidence'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
d = tempfile.mkdtemp(dir=os.path.join(V, 'build'))
try:
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
    subprocess.check_call(['javac', '-cp', CP, '-d', d, os.path.join(V, 'java', 'BigInt.java')])
    subprocess.check_call(['go', 'build', '-o', os.path.join(d, 'driver'), '.'], cwd=os.path.join(V, 'harness'), env=env)
    env['CGO_ENABLED'] = '1'
    subprocess.check_call(['go', 'build', '-race', '-o', os.path.join(d, 'driver-race'), '.'], cwd=os.path.join(V, 'harness'), env=env)
finally:
    shutil.rmtree(d)
print('ok')
