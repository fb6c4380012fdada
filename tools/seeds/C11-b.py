PROPERTY = 'C11'
FILE = 'task_models/task.py'
OLD = "    def _deep_copy_children(self, rename_format='{}'):\n        return [c.deep_copy(rename_format=rename_format)\n                for c in self.children]\n"
NEW = "    def _deep_copy_children(self, rename_format='{}'):\n        copies = {}\n        for c in self.children:\n            copies.setdefault(c.name, c.deep_copy(rename_format=rename_format))\n        return [copies[c.name] for c in self.children]\n"
NEEDS = 'a combination with two children of the same name (as unnamed combinations have)'
BREAKS = 'the second of them is replaced by the copy of the first'
DEMO = r'''
from task_models.task import *
L = lambda n: LeafCombination(AbstractAction(n))
S = lambda *c: SequentialCombination(list(c))
t = S(S(L('a'), L('b')), S(L('c'), L('d')))
c = t.deep_copy()
names = lambda n: n.name if n.kind is None else [names(x) for x in n.children]
assert names(c) == names(t), names(c)
'''
