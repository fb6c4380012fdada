PROPERTY = 'C25'
FILE = 'task_models/task.py'
OLD = '''                    for (next_action, _) in tg.transitions[next_state]:
                        # ...and add transitions of the form: a --(s')--> a'
                        ctg.add_transition(a, next_state, next_action)'''
NEW = '''                    for (next_action, after) in tg.transitions[next_state]:
                        # ...and add transitions of the form: a --(s')--> a'
                        if after != next_state:
                            ctg.add_transition(a, next_state, next_action)'''
NEEDS = 'an action without effect after another action'
BREAKS = 'the conjugate misses an action that can follow another'
DEMO = '''
from task_models.task import TaskGraph, ConjugateTaskGraph
from task_models.state import State
from task_models.action import Action

class S(State):
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return isinstance(other, S) and self.v == other.v
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.v)

class A(Action):
    def check(self, pre, post):
        return True

a, b, c = A('a'), A('b'), A('c')
g = TaskGraph()
g.add_path([S(0), a, S(1), b, S(1), c, S(2)])
t = g.conjugate()
assert t.has_transition(a, S(1), b)
assert t.has_transition(b, S(1), c)
assert t.has_transition(c, S(2), t.terminal)
'''
