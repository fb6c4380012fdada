PROPERTY = 'C05'
FILE = 'task_models/lib/pomdp.py'
OLD = """                       ["{} : {}".format(x, y) for y in ys])
"""
NEW = """                       ["{} : {}".format(x, y) for y in dict.fromkeys(map(str, sorted(ys, key=str)))])
"""
NEEDS = 'state names that are not in alphabetical order (or more than ten unnamed states)'
BREAKS = 'reward blocks carry the name of another state'
DEMO = '''
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP
R = np.zeros((1, 2, 2, 1))
R[0, 0] = 7
m = POMDP(np.full((1, 2, 2), .5), np.ones((1, 2, 1)), R, np.array([.5, .5]), .9, states=['b', 'a'], actions=['x'])
l = m.dump().splitlines()
i = [k for k, x in enumerate(l) if x.replace(' ', '').startswith('R:x:b')][0]
assert float(l[i + 1]) == 7, l
'''
