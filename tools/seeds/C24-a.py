PROPERTY = 'C24'
FILE = 'task_models/task.py'
OLD = """        for (s1, a, s2) in split_path(path):
            self.add_transition(s1, a, s2)"""
NEW = """        for (s1, a, s2) in split_path(path):
            if s1 != s2:
                self.add_transition(s1, a, s2)"""
NEEDS = 'a path containing an action that leaves the state as it is'
BREAKS = 'a path that was added is not accepted by the graph'
DEMO = '''
from task_models.task import TaskGraph
from task_models.state import State
from task_models.action import Action

class S(State):
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return isinstance(other, S) and self.v == other.v
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.v)

class A(Action):
    def check(self, pre, post):
        return True

a = A('a')
g = TaskGraph()
path = [S(0), a, S(0), a, S(1)]
g.add_path(path)
assert g.has_path(path)
assert g.has_transition(S(0), a, S(0))
'''
