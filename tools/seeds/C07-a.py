PROPERTY = 'C07'
FILE = 'task_models/lib/pomdp.py'
OLD = """        for s in start.nonzero()[0]:
            b = np.zeros(start.shape)
            b[s] = 1.
"""
NEW = """        b = np.zeros(start.shape)
        for s in start.nonzero()[0]:
            b[s - 1] = 0.
            b[s] = 1.
"""
NEEDS = 'two possible start states that are not next to each other'
BREAKS = 'a trajectory tree starts from a belief that is not certain'
DEMO = '''
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP, GraphPolicy, GraphPolicyBeliefRunner
T = np.array([np.eye(3)])
O = np.ones((1, 3, 1))
R = np.zeros((1, 3, 3, 1))
for start in ([.5, .5, 0.], [.5, 0., .5]):
    start = np.array(start)
    m = POMDP(T, O, R, start, .9, actions=['x'], observations=['o'])
    g = GraphPolicy(['x'], ['o'], [[0]], [[0., 0., 0.]], init=0)
    ts = GraphPolicyBeliefRunner(g, m).trajectory_trees_from_starts(horizon=1)['graphs']
    got = [np.array(t['belief']).tolist() for t in ts]
    want = [[float(i == s) for i in range(3)] for s in start.nonzero()[0]]
    assert got == want, got
'''
