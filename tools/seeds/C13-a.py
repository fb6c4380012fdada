PROPERTY = 'C13'
FILE = 'task_models/supportive.py'
OLD = '                        self.succs[l] = ff\n'
NEW = '                        self.succs[l] = ff[:1] if len(ll) > 1 else ff\n'
NEEDS = 'a sequence in which an element with several possible last steps is followed by one with several possible first steps'
BREAKS = 'some steps that can start the next element are no successors'
DEMO = r'''
from task_models.supportive import _HTMToDAG
from task_models.task import *
L = lambda n: LeafCombination(AbstractAction(n))
def alt(*n):
    return AlternativeCombination([L(x) for x in n], name='or')
d = _HTMToDAG(SequentialCombination([alt('a', 'b'), alt('c', 'd'), L('e')], name='s'))
assert [sorted(x) for x in d.succs] == [[2, 3], [2, 3], [4], [4], []], d.succs
assert sorted(d.init) == [0, 1]
d = _HTMToDAG(SequentialCombination([L('a'), alt('c', 'd'), L('e')], name='s'))
assert [sorted(x) for x in d.succs] == [[1, 2], [3], [3], []], d.succs
'''
