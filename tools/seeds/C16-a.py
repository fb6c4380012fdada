PROPERTY = 'C16'
FILE = 'task_models/supportive.py'
OLD = "                if c == USES or c == CONSUMES_SOME:\n                    self.clearable[i_o] = True"
NEW = "                self.clearable[i_o] = c == USES or c == CONSUMES_SOME"
NEEDS = 'an object used by one condition and entirely consumed by a later one'
BREAKS = 'the object is not clearable although some step uses it without consuming it all'
DEMO = '''
from task_models.supportive import SupportivePOMDP, SupportedAction, CONSUMES, USES
from task_models.task import LeafCombination, SequentialCombination

class Act(SupportedAction):
    hold = None
    def __init__(self, name, conditions):
        super(Act, self).__init__(name)
        self.conditions = conditions
m = SupportivePOMDP(SequentialCombination([LeafCombination(Act('x', [(USES, 'glue'), (CONSUMES, 'leg')])),
                                           LeafCombination(Act('y', [(CONSUMES, 'glue')]))], name='t'))
assert m.clearable == [True, False], m.clearable
assert 'clear glue' in m.actions
'''
