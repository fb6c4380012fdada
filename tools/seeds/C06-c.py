PROPERTY = 'C06'
FILE = 'task_models/lib/pomdp.py'
OLD = '        assert(actions == actions2)  # policy and value function share actions\n'
NEW = '        assert(set(actions) == set(actions2))  # policy and value function share actions\n'
NEEDS = 'files with the same actions in another order'
BREAKS = 'nodes get the vectors of other nodes'
DEMO = r'''
import io, os, tempfile
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP, parse_value_function, parse_policy_graph
m = POMDP(np.ones((2, 1, 1)), np.ones((2, 1, 1)), np.ones((2, 1, 1, 1)), np.ones(1), .9, actions=['x', 'y'], states=['s'], observations=['o'])
def load(al, pg):
    with tempfile.TemporaryDirectory() as d:
        for n, t in (('p.alpha', al), ('p.pg', pg)):
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        return m.load_policy_from(d, 'p')
def fails(al, pg):
    try:
        load(al, pg)
    except Exception:
        return True
assert load('0\n1\n\n1\n2\n', '0 0  1\n1 1  0\n').actions == ['x', 'y']
assert fails('1\n1\n\n0\n2\n', '0 0  1\n1 1  0\n')
'''
