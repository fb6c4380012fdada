PROPERTY = 'C29'
FILE = 'task_models/action.py'
OLD = '        return (state.get_features() * self.mask == self.value).all()'
NEW = '        return (state.get_features() * self.mask - self.value).sum() == 0'
NEEDS = 'a state that differs from the required values in two features, in opposite directions'
BREAKS = 'the condition holds in a state that does not have the required values'
DEMO = '''
import numpy as np
from task_models.action import Condition
from task_models.state import NDimensionalState
c = Condition(np.array([1, 1, 0]), np.array([1, 2, 0]))
assert c.check(NDimensionalState(np.array([1, 2, 7])))
assert not c.check(NDimensionalState(np.array([1, 3, 7])))
assert not c.check(NDimensionalState(np.array([2, 1, 7])))
'''
