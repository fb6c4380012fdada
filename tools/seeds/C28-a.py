PROPERTY = 'C28'
FILE = 'task_models/task.py'
OLD = '''            if sin or din:
                self.remove_transition(s, l, d)'''
NEW = '''            if sin or din:
                if not (sin and self.has_transition(new_node, '', d)):
                    self.remove_transition(s, l, d)'''
NEEDS = 'two transitions of the set to the same outside node, compacted into one of them or a new node'
BREAKS = 'an old transition is left behind'
DEMO = '''
from task_models.task import TaskGraph, ConjugateTaskGraph
from task_models.state import State
from task_models.action import Action

class S(State):
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return isinstance(other, S) and self.v == other.v
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.v)

class A(Action):
    def check(self, pre, post):
        return True

g = TaskGraph()
for x in 'ab':
    g.add_transition(x, 'l' + x, 'c')
g.add_transition('c', 'k', 'd')
g.compact({'a', 'b'}, 'n')
assert sorted(g.all_transitions()) == [('c', 'k', 'd'), ('n', '', 'c')], sorted(g.all_transitions())
'''
