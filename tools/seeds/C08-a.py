PROPERTY = 'C08'
FILE = 'task_models/task_to_pomdp.py'
OLD = '        ps = uniform(nc)  # Use uniform probability by default\n'
NEW = '        ps = uniform(max(nc, len(self.init)))  # Use uniform probability by default\n'
NEEDS = 'an alternative one of whose branches is itself an alternative'
BREAKS = 'the start probabilities of the outer alternative do not sum to one'
DEMO = r'''
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
import numpy as np
from task_models.task_to_pomdp import *
from task_models.task import *
L = lambda n, d=(3, 4, 5): LeafCombination(CollaborativeAction(n, d))
alt = lambda *c: AlternativeCombination(list(c), name='or')
seq = lambda *c: SequentialCombination(list(c), name='s')
model = lambda root, **kw: HTMToPOMDP(1., 2., 3., **kw).task_to_pomdp(HierarchicalTask(root=root))
m = model(alt(L('a'), L('b')))
assert abs(np.asarray(m.start).sum() - 1) < 1e-9
m = model(seq(L('z'), alt(L('a'), seq(alt(L('b'), L('c')), L('d')))))
assert abs(m.T.sum(-1) - 1).max() < 1e-9, m.T.sum(-1)
'''
