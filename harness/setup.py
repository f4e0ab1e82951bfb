"""Sanity check of the tools that the checks need (nothing has to be built in advance)."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
for tool in ('java', 'clang'):
    if not shutil.which(tool):
        sys.exit(f'{tool} is missing')
for jar in core.JAR.split(':'):
    if not os.path.exists(jar):
        sys.exit(f'{jar} is missing')
s = core.make_scratch()
try:
    pkg = core.build(s)
    subprocess.run([sys.executable, '-c', 'import traceon.backend, traceon.mesher'], env=dict(os.environ, PYTHONPATH=pkg), check=True)
finally:
    shutil.rmtree(s)
print('ok')
