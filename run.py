"""/opt/venv/bin/python /verif/run.py <ID> [quick|thorough] [--replay=FILE]"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == '__main__':
    rc = core.main(sys.argv)
    sys.stdout.flush()
    sys.exit(rc)
