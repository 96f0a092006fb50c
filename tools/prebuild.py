"""setup: builds one harness group, to see that the tools are there."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import build, z3
d = tempfile.mkdtemp(prefix='ptsx-')
try: build.build_ir('film', d)
finally: shutil.rmtree(d, ignore_errors=True)
print('ok', z3.get_version_string())
