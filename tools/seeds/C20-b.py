PROPERTY = 'C20'
FILE = 'task_models/lib/pomcp.py'
OLD = "                        last_belief.successor(self.model, history[i - 1], h))"
NEW = "                        last_belief.successor(self.model, history[-2], h))"
NEEDS = 'a history of which more than the last observation leads to missing nodes'
BREAKS = 'missing nodes carry the successor belief of the wrong action'
DEMO = '''
from task_models.lib.pomcp import POMCPPolicyRunner
from task_models.lib.pomdp import POMDP
T = np.array([[[.5, .5], [.5, .5]], [[1., 0.], [0., 1.]]])
O = np.ones((2, 2, 2)) / 2
m = POMDP(T, O, np.zeros((2, 2, 2, 2)), np.array([1., 0.]), .9, actions=['mix', 'stay'], states=['x', 'y'],
          observations=['ox', 'oy'], values='reward')
p = POMCPPolicyRunner(m, iterations=3, horizon=2, exploration=1, logger=lambda *a: None)
n = p.tree.get_node([0, 0, 1, 1])
assert np.allclose(n.belief.array, [.5, .5]), n.belief.array
n = p.tree.get_node([1, 0, 0, 1])
assert np.allclose(n.belief.array, [.5, .5]), n.belief.array
n = p.tree.get_node([1, 1, 0, 1])
assert np.allclose(n.belief.array, [.5, .5])
n = p.tree.get_node([0, 1])
assert np.allclose(n.belief.array, [.5, .5])
assert np.allclose(p.tree.get_node([1, 1]).belief.array, [1., 0.])
'''
