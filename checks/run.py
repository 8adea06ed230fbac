#!/opt/venv/bin/python
"""checks/run.py ID [--replay FILE] [--thorough]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

if __name__ == '__main__':
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='verif-run-')
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    try:
        from vlib import run
        rc = run.main('checks.' + sys.argv[1], sys.argv[2:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
