PROPERTY = 'C28'
FILE = 'task_models/task.py'
OLD = '''        if self.terminal in nodes:
            self.terminal = new_node'''
NEW = '''        elif self.terminal in nodes:
            self.terminal = new_node'''
NEEDS = 'both markers among the compacted nodes'
BREAKS = 'the terminal marker is not renamed'
DEMO = '''
from task_models.task import TaskGraph, ConjugateTaskGraph
from task_models.state import State
from task_models.action import Action

class S(State):
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return isinstance(other, S) and self.v == other.v
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.v)

class A(Action):
    def check(self, pre, post):
        return True

from task_models.task import AbstractAction
g = ConjugateTaskGraph()
a = AbstractAction('a')
n = AbstractAction('n')
g.add_transition(g.initial, S(0), a)
g.add_transition(a, S(1), g.terminal)
g.compact([g.initial, a, g.terminal], n)
assert g.initial == n and g.terminal == n
'''
