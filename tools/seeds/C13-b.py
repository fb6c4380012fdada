PROPERTY = 'C13'
FILE = 'task_models/supportive.py'
OLD = '            elif isinstance(node, AlternativeCombination):\n                first = unique(chain(*first))\n                last = unique(chain(*last))\n'
NEW = '            elif isinstance(node, AlternativeCombination):\n                first = unique(chain(*first))\n                last = unique(l for l in chain(*last) if l not in first) or first\n'
NEEDS = 'an alternative between a single step and a sequence of several'
BREAKS = 'a branch made of one step may not end the alternative: its step gets no successors'
DEMO = r'''
from task_models.supportive import _HTMToDAG
from task_models.task import *
L = lambda n: LeafCombination(AbstractAction(n))
Q = lambda *c: SequentialCombination(list(c), name='s')
O = lambda *c: AlternativeCombination(list(c), name='o')
d = _HTMToDAG(Q(O(L('a'), L('b')), L('z')))
assert [sorted(x) for x in d.succs] == [[2], [2], []], d.succs
d = _HTMToDAG(Q(O(L('a'), Q(L('b'), L('c'))), L('z')))
assert [sorted(x) for x in d.succs] == [[3], [2], [3], []], d.succs
'''
