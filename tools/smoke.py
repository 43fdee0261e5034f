"""setup_cmd: nothing to build; confirms that the tools are where we expect."""
import os
import subprocess
import sys

for path in (
    '/opt/venv/bin/python',
    '/usr/bin/protoc',
    '/opt/veriftools/pyvenv/lib/python3.12/site-packages/hypothesis',
):
  if not os.path.exists(path):
    sys.exit(f'missing {path}')
sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', 'import numpy']))
