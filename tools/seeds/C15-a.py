PROPERTY = 'C15'
FILE = 'task_models/supportive.py'
OLD = "        _new_s = self._int_to_state(_s.to_int())"
NEW = "        _new_s = self._int_to_state(s)"
NEEDS = 'an exogenous change of an object or of the preference during a random transition'
BREAKS = 'the transition is decided on the changed state but the change itself is lost from the new state'
DEMO = '''
from task_models.supportive import SupportivePOMDP, AssembleLeg
from task_models.task import LeafCombination, SequentialCombination
m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('leg'))], name='t'))
m.p_changed_by_human = 1.
m.p_change_preference = 0.
st = m._int_to_state(0)
st.htm = m.htm_final
new, obs, r = m.sample_transition(m.A_WAIT, st.to_int())
n = m._int_to_state(new)
assert [n.has_object(i) for i in range(len(m.objects))] == [1] * len(m.objects)
'''
