PROPERTY = 'C17'
FILE = 'task_models/lib/pomcp.py'
OLD = "    def update(self, value):\n        self._avg.update(value)\n"
NEW = "    def update(self, value):\n        if value or not self.n_simulations:\n            self._avg.update(value)\n        else:\n            self._avg.n_simulations += 1  # nothing to add\n"
NEEDS = 'a positive recency weight and a return of exactly zero after another return'
BREAKS = 'returns equal to zero are not weighted by recency'
DEMO = '''
from task_models.lib.pomcp import _SearchNode
v = _SearchNode(alpha=.5)
v.update(8.)
v.update(0.)
assert abs(v.value - 2.) < 1e-9, v.value
'''
