PROPERTY = 'C11'
FILE = 'task_models/task.py'
OLD = '        return AlternativeCombination(\n            self._deep_copy_children(rename_format=rename_format),\n            probabilities=self.proba,\n'
NEW = '        return AlternativeCombination(\n            self._deep_copy_children(rename_format=rename_format),\n            probabilities=sorted(self.proba),\n'
NEEDS = 'an alternative whose probabilities are not in increasing order, below an unordered node or copied'
BREAKS = 'the branches of the copied alternative get the probabilities of others'
DEMO = r'''
from task_models.task import *
L = lambda n: LeafCombination(AbstractAction(n))
for p in ([.2, .8], [.8, .2], None):
    t = AlternativeCombination([L('a'), L('b')], probabilities=p, name='o')
    c = t.deep_copy('{} copy')
    assert list(c.proba) == list(t.proba), (c.proba, t.proba)
    assert [x.name for x in c.children] == ['a copy', 'b copy']
'''
