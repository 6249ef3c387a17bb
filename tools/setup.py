"""setup_cmd: checks that the simulator loads the code under test from /repo's working tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import checks, plans, lab
checks.prepare()
plan = checks.generate('C09', 1, 'quick')
res = checks.execute('C09', plan, True)
sys.stdout.real.write(f'simulator ready: {len(lab._code)} modules from {lab.SRC}, {res.ops} simulated operations in the first run\n')
sys.stdout.real.flush()
os._exit(0)
