PROPERTY = 'C10'
FILE = 'task_models/bring_next_to_pomdp.py'
OLD = '        R[get, s_start, s_next, :] = builder.cost_get\n'
NEW = '        R[get, s_start, s_next[0], :] = builder.cost_get\n'
NEEDS = 'a step followed by an alternative with several first steps'
BREAKS = 'getting the right object costs the error cost when it moves to the second or a later first step of what follows'
DEMO = r'''
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.bring_next_to_pomdp import *
from task_models.task import *
L = lambda n, o: LeafCombination(CollaborativeAction(n, o))
t = HierarchicalTask(root=SequentialCombination([L('a', 'x'), AlternativeCombination([L('b', 'y'), L('c', 'z')], name='or'), L('d', 'x')], name='s'))
m = HTMToPOMDP(2., 3., 7., ['x', 'y', 'z']).task_to_pomdp(t)
R = -m.R
g = list(m.actions).index('get-x')
for s in (1, 2):
    assert m.T[g, 0, s] == .5
    assert (R[g, 0, s] == 3.).all(), R[g, 0]
'''
