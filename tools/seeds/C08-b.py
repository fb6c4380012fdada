PROPERTY = 'C08'
FILE = 'task_models/task_to_pomdp.py'
OLD = '            [s_start + c_s_start + s for s in c.init]\n'
NEW = '            [max(s_start, c_s_start) + s for s in c.init]\n'
NEEDS = 'a sequence of three steps that follows at least two other steps'
BREAKS = 'inner steps lead to states that are no initial states of the step that follows'
DEMO = r'''
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
import numpy as np
from task_models.task_to_pomdp import *
from task_models.task import *
L = lambda n, d=(3, 4, 5): LeafCombination(CollaborativeAction(n, d))
alt = lambda *c: AlternativeCombination(list(c), name='or')
seq = lambda *c: SequentialCombination(list(c), name='s')
model = lambda root, **kw: HTMToPOMDP(1., 2., 3., **kw).task_to_pomdp(HierarchicalTask(root=root))
m = model(seq(L('a'), L('z'), seq(L('b'), L('c'), L('e')), L('d')))
T = m.T
for k in range(6):
    ok = {3 * k, 3 * k + 1, 3 * k + 2, 3 * k + 3}
    for s in range(3 * k, 3 * k + 3):
        assert all(t in ok for a in range(T.shape[0]) for t in np.flatnonzero(T[a, s])), (k, s)
'''
