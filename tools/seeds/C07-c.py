PROPERTY = 'C07'
FILE = 'task_models/lib/pomdp.py'
OLD = """                b = self.current_belief
                self.step(obs)
                tree = self.trajectory_tree(horizon)
                self.reset(belief=b)  # Restore state for next obs
"""
NEW = """                b = self.current_belief
                self.step(obs)
                tree = self.trajectory_tree(horizon)
                self.current_belief = b  # Restore state for next obs
"""
NEEDS = 'a tree in which the first observations lead to another node'
BREAKS = 'the runner does not come back to the node it was in when a tree is built'
DEMO = '''
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP, GraphPolicy, GraphPolicyBeliefRunner
T = np.array([[[0., 1.], [0., 1.]]])
O = np.ones((1, 2, 1))
R = np.zeros((1, 2, 2, 1))
m = POMDP(T, O, R, np.array([1., 0.]), .9, actions=['x'], observations=['o'])
g = GraphPolicy(['x', 'x'], ['o'], [[0], [1]], [[1., 0.], [0., 1.]], init=0)
r = GraphPolicyBeliefRunner(g, m)
for h in (0, 1, 2):
    r.trajectory_tree(h)
    assert int(r.current) == 0, h
'''
