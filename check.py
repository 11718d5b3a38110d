#!/opt/veriftools/pyvenv/bin/python
"""Entry point of the checks: check.py <property>."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/engine', HERE + '/spec', HERE + '/checks']
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
if __name__ == '__main__':
    importlib.import_module(sys.argv[1].lower()).main()
