PROPERTY = 'C20'
FILE = 'task_models/lib/pomcp.py'
OLD = "        new_history = self.history + [self._last_action, o]\n"
NEW = "        new_history = self.history\n        new_history.extend([self._last_action, o])\n"
NEEDS = 'an observation for which no particle of the successor belief can be sampled'
BREAKS = 'the history grows although the move fails'
DEMO = '''
from task_models.lib.pomcp import POMCPPolicyRunner
from task_models.lib.pomdp import POMDP
from task_models.lib.belief import MaxSamplesReached
T = np.eye(2)[None]
O = np.array([[[1., 0.], [0., 1.]]])
m = POMDP(T, O, np.zeros((1, 2, 2, 2)), np.array([1., 0.]), .9, actions=['go'], states=['x', 'y'],
          observations=['ox', 'oy'], values='reward')
p = POMCPPolicyRunner(m, iterations=3, horizon=2, exploration=1, belief='particle', belief_params={'n_particles': 3},
                      logger=lambda *a: None)
p.get_action()
p.step('ox')
node, history = p._node, list(p.history)
p.get_action()
try:
    p.step('oy')
    assert False, 'impossible observation accepted'
except MaxSamplesReached:
    pass
assert p._node is node and list(p.history) == history, p.history
'''
