PROPERTY = 'C01'
FILE = 'task_models/lib/pomdp.py'
OLD = "        if s == 0.:\n            raise Impossible('Impossible observation: ' + str(o))\n        return new_b / s\n"
NEW = "        if np.isclose(s, 0.):\n            raise Impossible('Impossible observation: ' + str(o))\n        return new_b / s\n"
NEEDS = 'an observation that is possible but has a probability below 1e-8 (e.g. after a long informative history)'
BREAKS = 'refuses observations of positive probability as impossible'
DEMO = '''
from task_models.lib.pomdp import POMDP
T = np.array([np.eye(2)])
O = np.array([[[1., 0.], [.5, .5]]])
m = POMDP(T, O, np.zeros((1, 2, 2, 2)), np.array([.5, .5]), .9)
b = m.belief_update(0, 1, np.array([1. - 1e-9, 1e-9]))
assert np.allclose(b, [0., 1.]), b
'''
