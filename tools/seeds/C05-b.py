PROPERTY = 'C05'
FILE = 'task_models/lib/pomdp.py'
OLD = """PREAMBLE_FMT = \"\"\"discount: {discount}
"""
NEW = """PREAMBLE_FMT = \"\"\"discount: {discount:.6g}
"""
NEEDS = 'a discount factor of more than six digits'
BREAKS = 'the solver is given another discount than the model has'
DEMO = '''
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP
for d in (.9, .99999975):
    m = POMDP(np.ones((1, 1, 1)), np.ones((1, 1, 1)), np.ones((1, 1, 1, 1)), np.ones(1), d)
    l = [x for x in m.dump().splitlines() if x.startswith('discount:')][0]
    assert float(l.split(':')[1]) == d, l
'''
