#!/opt/venv/bin/python
"""checks/run.py <property>: the check of one property (see MANIFEST.json)."""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import check
from props import registry

if __name__ == '__main__':
    pid = sys.argv[1]
    check.main(pid, registry.CHECKS[pid])
