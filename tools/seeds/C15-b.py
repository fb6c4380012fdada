PROPERTY = 'C15'
FILE = 'task_models/supportive.py'
OLD = "        return sum([self._update_for_condition(_s, c, o)\n                    for c, o in self.htm_conditions[node]])"
NEW = ("        missing = [o for _, o in self.htm_conditions[node] if not _s.has_object(o)]\n"
       "        for c, o in self.htm_conditions[node]:\n            self._update_for_condition(_s, c, o)\n"
       "        return -sum([self._cost_get(o) for o in missing])")
NEEDS = 'a step with two conditions on the same object (the first makes it available or consumes it)'
BREAKS = 'fetching costs are computed on the state before the step instead of condition by condition'
DEMO = '''
from task_models.supportive import SupportivePOMDP, SupportedAction, CONSUMES, USES
from task_models.task import LeafCombination, SequentialCombination

class Act(SupportedAction):
    hold = None
    def __init__(self, conditions):
        super(Act, self).__init__('x')
        self.conditions = conditions
for conds, want in (([(USES, 'a'), (CONSUMES, 'a')], -15. + 10.), ([(USES, 'a')], -5.), ([(CONSUMES, 'a'), (USES, 'b')], -20.)):
    m = SupportivePOMDP(SequentialCombination([LeafCombination(Act(conds))], name='t'))
    st = m._int_to_state(0)
    st.htm = 0
    new, obs, r = m.sample_transition(m.A_WAIT, st.to_int(), random=False)
    assert r == want, (conds, r, want)
'''
