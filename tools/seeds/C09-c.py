PROPERTY = 'C09'
FILE = 'task_models/task_to_pomdp.py'
OLD = '            c.update_R(R, a_wait, a_start + self.a_indices[i],\n                       s_start + self.s_indices[i], durations, intr_cost)\n'
NEW = '            c.update_R(R, a_wait, a_start + self.a_indices[i],\n                       max(s_start, 0) + self.s_indices[i],\n                       durations, intr_cost if i else abs(intr_cost))\n'
NEEDS = 'a negative intrinsic cost'
BREAKS = 'the first element is charged the opposite of the intrinsic cost'
DEMO = r'''
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
import numpy as np
from task_models.task_to_pomdp import *
from task_models.task import *
L = lambda n, d=(3, 4, 5): LeafCombination(CollaborativeAction(n, d))
alt = lambda *c: AlternativeCombination(list(c), name='or')
seq = lambda *c: SequentialCombination(list(c), name='s')
model = lambda root, **kw: HTMToPOMDP(1., 2., 3., **kw).task_to_pomdp(HierarchicalTask(root=root))
for i in (2, -2):
    m = model(seq(L('a'), L('b')), intr_cost=i)
    assert abs(-m.R[1, 0, 0] - (5. + i)).max() < 1e-9, m.R[1, 0, 0]
'''
