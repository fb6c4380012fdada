PROPERTY = 'C04'
FILE = 'task_models/lib/pomdp.py'
OLD = """                   np.asarray(d['start']), d['discount'], states=d['states'],
"""
NEW = """                   np.asarray(d['start']), d['discount'] or .95, states=d['states'],
"""
NEEDS = 'a model whose discount is zero'
BREAKS = 'the reloaded model has another discount'
DEMO = '''
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP
for d in (.5, 0):
    m = POMDP(np.ones((1, 1, 1)), np.ones((1, 1, 1)), np.ones((1, 1, 1, 1)), np.ones(1), d)
    assert POMDP.from_json(m.as_json()).discount == d, d
'''
