PROPERTY = 'C02'
FILE = 'task_models/lib/utils.py'
OLD = "    if not np.allclose(array.sum(-1), 1.):\n"
NEW = "    if not np.allclose(array.sum(-1).mean(), 1.):\n"
NEEDS = 'two rows whose sums are wrong in opposite directions'
BREAKS = 'a model whose transition rows are not distributions is constructed'
DEMO = '''
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP
O = np.ones((1, 2, 1))
R = np.zeros((1, 2, 2, 1))
start = np.array([1., 0.])
POMDP(np.array([np.eye(2)]), O, R, start, .9)
for d in ((.25, 0.), (.25, -.25)):
    T = np.array([np.eye(2) + np.diag(d)])
    try:
        POMDP(T, O, R, start, .9)
    except ValueError:
        continue
    raise AssertionError(d)
'''
