PROPERTY = 'C03'
FILE = 'task_models/lib/pomdp.py'
OLD = "        o = np.random.choice(self.n_observations, p=self.O[a, new_s, :])\n"
NEW = "        o = np.random.choice(self.n_observations, p=self.O[a, s, :])\n"
NEEDS = 'a model in which the observation distributions of the start and the end state differ'
BREAKS = 'observations are sampled as if the transition had not happened'
DEMO = '''
from task_models.lib.pomdp import POMDP
T = np.array([[[0., 1.], [0., 1.]]])
O = np.array([[[1., 0.], [0., 1.]]])
m = POMDP(T, O, np.zeros((1, 2, 2, 2)), np.array([1., 0.]), .9)
s, o, r = m.sample_transition(0, 0)
assert (s, o) == (1, 1), (s, o)
'''
