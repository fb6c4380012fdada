PROPERTY = 'C21'
FILE = 'task_models/lib/belief.py'
OLD = "            s, o, _ = self.model.sample_transition(self.a, self._sample())\n        return s"
NEW = "            s, o, _ = self.model.sample_transition(self.a, self._sample())\n        self.n_sampled = 0\n        return s"
NEEDS = 'an observation rare enough for the trials of one particle belief to exceed one hundred per particle'
BREAKS = 'the limit on trials starts again at each particle instead of holding for the whole belief'
DEMO = '''
from task_models.lib.belief import ParticleBelief, MaxSamplesReached

class Model(object):
    n_states = 2
    calls = 0
    def sample_transition(self, a, s):
        self.calls += 1
        return 1, int(self.calls % 150 == 0), 0.

b = ParticleBelief(lambda: 0, 2, n_particles=4)
m = Model()
c = b.successor(m, 0, 1)
assert list(c.part_states) == [1] * 4
assert m.calls <= 400, m.calls
'''
