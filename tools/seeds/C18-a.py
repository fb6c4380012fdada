PROPERTY = 'C18'
FILE = 'task_models/lib/pomcp.py'
OLD = "            exploration *= np.nanmax(vals) - np.nanmin(vals)"
NEW = "            exploration *= max(np.nanmax(vals), 0.) - min(np.nanmin(vals), 0.)"
NEEDS = 'relative exploration when all values have the same sign'
BREAKS = 'the exploration constant is not scaled by the spread of the values'
DEMO = '''
from task_models.lib.pomcp import _SearchObservationNode
n = _SearchObservationNode(None, 2, alpha=0)
for a, k, v in ((0, 20, 100.), (1, 2, 99.)):
    for _ in range(k):
        n.safe_get_child(a).update(v)
        n.update(v)
x = n.augmented_values(exploration=1., relative=True)
want = [v + np.sqrt(np.log(22) / k) for k, v in ((20, 100.), (2, 99.))]
assert np.allclose(x, want), (x, want)
'''
