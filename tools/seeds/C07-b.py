PROPERTY = 'C07'
FILE = 'task_models/lib/pomdp.py'
OLD = "        return self.values.dot(b[:, np.newaxis]).argmax()\n"
NEW = "        return np.around(self.values.dot(b[:, np.newaxis]), DECIMALS).argmax()\n"
NEEDS = 'two nodes whose values differ by less than the precision of the solver files'
BREAKS = 'a node that has not the maximal value is selected'
DEMO = '''
import numpy as np
from task_models.lib.pomdp import GraphPolicy
for d in (1., 1e-7):
    g = GraphPolicy(['x', 'y'], ['o'], [[0], [1]], [[0., 0.], [d, d]], init=0)
    assert g.get_node_from_belief(np.array([.5, .5])) == 1, d
'''
