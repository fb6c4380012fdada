PROPERTY = 'C12'
FILE = 'task_models/task.py'
OLD = "        d = self._meta_dictionary(parent_id, id_generator)\n        d['children'] = [\n            c.as_dictionary(d['id'], id_generator)\n"
NEW = "        d = self._meta_dictionary(parent_id, id_generator)\n        d['children'] = [\n            c.as_dictionary(d['id'] or parent_id, id_generator)\n"
NEEDS = 'nothing but the root having children: its number is 0'
BREAKS = 'the children of the root are recorded without a parent'
DEMO = r'''
from task_models.task import *
L = lambda n: LeafCombination(AbstractAction(n))
t = HierarchicalTask(SequentialCombination([L('a'), SequentialCombination([L('b')], name='s')], name='r'))
d = t.as_dictionary()['nodes']
assert d['parent'] is None and [c['parent'] for c in d['children']] == [0, 0], d
assert d['children'][1]['children'][0]['parent'] == 2
'''
