#!/opt/venv/bin/python
"""Nothing to build: checks that the tools are there and the specifications parse."""
import os
import subprocess
import sys
import tempfile
import shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import msgpack  # noqa: F401
import tlc

tmp = tempfile.mkdtemp(prefix='sany.')
try:
    mods = sorted(f for f in os.listdir(tlc.SPEC) if f.endswith('.tla'))
    for f in mods:
        shutil.copy(os.path.join(tlc.SPEC, f), tmp)
    p = subprocess.run(['java', '-cp', tlc.jar_path(), 'tla2sany.SANY'] + mods, cwd=tmp, capture_output=True, text=True)
    if p.returncode != 0 or 'error' in p.stdout.lower():
        print(p.stdout[-3000:])
        sys.exit(1)
    print('%d specification modules parse' % len(mods))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
