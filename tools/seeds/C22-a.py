PROPERTY = 'C22'
FILE = 'task_models/supportive.py'
OLD = "        if _new_s.is_final():\n            self.n = 0"
NEW = "        elif _new_s.is_final():\n            self.n = 0"
NEEDS = 'a horizon with steps left when a transition enters the final state'
BREAKS = 'the horizon does not end when the final state is entered'
DEMO = '''
from task_models.supportive import SupportivePOMDP, AssembleLeg, NHTMHorizon
from task_models.task import LeafCombination, SequentialCombination
m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('leg'))], name='t'))
st = m._int_to_state(0)
st.htm = m.htm_clean
nw = m._int_to_state(0)
nw.htm = m.htm_final
h = NHTMHorizon(m, 3)
h.decrement(0, st.to_int(), nw.to_int(), 0)
assert h.is_reached()
h = NHTMHorizon(m, 3)
h.decrement(0, 0, st.to_int(), 0)
assert not h.is_reached() and h.n == 2
'''
