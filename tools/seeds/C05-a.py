PROPERTY = 'C05'
FILE = 'task_models/lib/pomdp.py'
OLD = """    imax = np.argmax(trunc)
"""
NEW = """    imax = np.argmax(np.abs(trunc))
"""
NEEDS = 'a row with a negative entry of largest magnitude whose rounding errors do not cancel'
BREAKS = 'a penalty, and not the largest entry, absorbs the rounding error'
DEMO = '''
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import _dump_1d_array
t = _dump_1d_array(np.array([-10., 1. / 3, 1. / 3, 1. / 3])).split(' ')
assert float(t[0]) == -10., t
'''
