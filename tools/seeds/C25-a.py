PROPERTY = 'C25'
FILE = 'task_models/task.py'
OLD = '''            if a in outgoing_actions:
                raise ValueError('''
NEW = '''            if a in outgoing_actions and sn != s:
                raise ValueError('''
NEEDS = 'an action that may leave a state unchanged or lead elsewhere (and set order)'
BREAKS = 'a non-deterministic graph may be conjugated'
DEMO = '''
from task_models.task import TaskGraph, ConjugateTaskGraph
from task_models.state import State
from task_models.action import Action

class S(State):
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return isinstance(other, S) and self.v == other.v
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.v)

class A(Action):
    def check(self, pre, post):
        return True

a = A('a')
for v in range(40):
    g = TaskGraph()
    g.add_path([S(v), a, S(v)])
    g.add_path([S(v), a, S(v + 1)])
    try:
        g.conjugate()
        raise SystemExit('accepted')
    except ValueError:
        pass
'''
