#!/opt/venv/bin/python
"""check.py <PROPERTY>            decide one property on /repo's working tree
   check.py contract <NAME> ...  run single contracts (development)
   check.py replay <FILE>        replay a recorded violation on the real code"""
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from ptv import driver
sys.exit(driver.main(sys.argv[1:]))
