PROPERTY = 'C10'
FILE = 'task_models/bring_next_to_pomdp.py'
OLD = '            [s_start + c_s_start + s for s in c.init]\n'
NEW = '            [max(s_start, c_s_start) + s for s in c.init]\n'
NEEDS = 'a sequence that is itself the second or a later element of a sequence'
BREAKS = 'inner steps lead to steps that do not follow them'
DEMO = r'''
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.bring_next_to_pomdp import *
from task_models.task import *
L = lambda n, o: LeafCombination(CollaborativeAction(n, o))
seq = lambda *c: SequentialCombination(list(c), name='s')
t = HierarchicalTask(root=seq(L('a', 'x'), seq(L('b', 'y'), L('c', 'z')), L('d', 'y')))
m = HTMToPOMDP(2., 3., 7., ['x', 'y', 'z']).task_to_pomdp(t)
A = list(m.actions)
for s, o in enumerate('xyzy'):
    assert m.T[A.index('get-' + o), s, s + 1] == 1., m.T[A.index('get-' + o), s]
'''
