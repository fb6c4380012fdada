PROPERTY = 'C09'
FILE = 'task_models/task_to_pomdp.py'
OLD = '        O[a_phy, s_next, :] = self.o_none\n'
NEW = '        O[a_phy, s_next[:2], :] = self.o_none\n'
NEEDS = 'a step followed by an alternative with three or more branches'
BREAKS = 'the physical action reports an error although it ends in a first state of the following step'
DEMO = r'''
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
import numpy as np
from task_models.task_to_pomdp import *
from task_models.task import *
L = lambda n, d=(3, 4, 5): LeafCombination(CollaborativeAction(n, d))
alt = lambda *c: AlternativeCombination(list(c), name='or')
seq = lambda *c: SequentialCombination(list(c), name='s')
model = lambda root, **kw: HTMToPOMDP(1., 2., 3., **kw).task_to_pomdp(HierarchicalTask(root=root))
m = model(seq(L('z'), alt(L('a'), L('b'), L('c')), L('y')))
a = [x for x, n in enumerate(m.actions) if n.startswith('phy')]
for k in range(m.O.shape[1]):
    ok = k in (3, 6, 9)
    assert (m.O[a[0], k, 0] == 1) == ok and (m.O[a[0], k, 3] == 1) != ok, (k, m.O[a[0], k])
'''
