PROPERTY = 'C14'
FILE = 'task_models/supportive.py'
OLD = "        return (self.s >> i) % 2"
NEW = "        return int(self.s / 2. ** i) % 2"
NEEDS = 'more than 53 features (objects, body features, preferences and step bits together)'
BREAKS = 'features of large state encodings are read through a float and lost'
DEMO = '''
from task_models.supportive import _SupportivePOMDPState
s = _SupportivePOMDPState(6, 1, 2, 70, s=0)
s.set_preference(0, 1)
s.set_object(0, 1)
assert s.has_object(0) == 1
s.set_object(3, 0)
assert s.has_object(0) == 1 and s.has_preference(0) == 1
s.htm = 5
s.set_object(0, 0)
assert s.has_object(0) == 0 and s.htm == 5 and s.has_preference(0) == 1
t = _SupportivePOMDPState(6, 1, 2, 70, s=s.to_int() + (1 << 4) - 1)
assert [t.has_object(i) for i in range(4)] == [1] * 4
s.set_object(69, 1)
s.s += (1 << 69) - 1
assert all(s.has_object(i) for i in range(69)), [s.has_object(i) for i in range(70)]
'''
