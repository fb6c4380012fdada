PROPERTY = 'C23'
FILE = 'task_models/policy.py'
OLD = "            elif self._is_a_next(self._last_action) and observation == 'none':"
NEW = "            elif self._is_a_next(self._last_action):"
NEEDS = 'a supporting action answered by not-found'
BREAKS = 'an uninterpretable observation advances to the next subtask instead of being refused'
DEMO = '''
from task_models.policy import PolicyLongSupportiveSequence, PolicyRunner

class M(object):
    actions = ['wait', 'hold H', 'hold V', 'ask hold', 'bring screws', 'clear screws', 'bring screwdriver',
               'clear screwdriver', 'bring joints', 'clear joints', 'bring leg']
    observations = ['none', 'fail', 'not-found', 'yes', 'no']
    n_htm_states = 4
p = PolicyLongSupportiveSequence(M())
for _ in range(4):
    p.get_action()
    p.step('none')
assert p.get_action() == 'hold H'
try:
    p.step('not-found')
    raise SystemExit('accepted')
except PolicyRunner.UnexpectedObservation:
    pass
assert p.get_action() == 'hold H'
'''
