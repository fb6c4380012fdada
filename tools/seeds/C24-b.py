PROPERTY = 'C24'
FILE = 'task_models/task.py'
OLD = """                        path[1].check(path[0], path[2]) and  # pre/post
                        check_path(path[2:])"""
NEW = """                        path[1].check(path[0], path[2]) and  # pre/post
                        (path[2] == path[-1] or check_path(path[2:]))"""
NEEDS = 'a path that goes through its final state, or ends with a non-state equal to it, and is invalid after that'
BREAKS = 'an invalid path is reported as valid and added to the graph'
DEMO = '''
from task_models.task import TaskGraph, check_path
from task_models.state import State
from task_models.action import Action

class S(State):
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return isinstance(other, S) and self.v == other.v
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.v)

class A(Action):
    def check(self, pre, post):
        return post.v == pre.v + 1

a = A('a')
assert check_path([S(0), a, S(1)])
path = [S(0), a, S(1), a, S(1)]
assert not check_path(path)
g = TaskGraph()
try:
    g.add_path(path)
    raise SystemExit('accepted')
except ValueError:
    pass
'''
