PROPERTY = 'C06'
FILE = 'task_models/lib/pomdp.py'
OLD = "                vectors.append(np.fromstring(line, sep=' '))\n"
NEW = "                # some solvers glue negative numbers together\n                vectors.append(np.fromstring(line.replace('-', ' -'), sep=' '))\n"
NEEDS = 'a vector with a very small entry, written with a negative exponent'
BREAKS = 'the vector is cut at the exponent or gets other entries'
DEMO = r'''
import io, os, tempfile
import numpy as np
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.lib.pomdp import POMDP, parse_value_function, parse_policy_graph
m = POMDP(np.ones((2, 1, 1)), np.ones((2, 1, 1)), np.ones((2, 1, 1, 1)), np.ones(1), .9, actions=['x', 'y'], states=['s'], observations=['o'])
def load(al, pg):
    with tempfile.TemporaryDirectory() as d:
        for n, t in (('p.alpha', al), ('p.pg', pg)):
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        return m.load_policy_from(d, 'p')
def fails(al, pg):
    try:
        load(al, pg)
    except Exception:
        return True
assert parse_value_function(io.StringIO('0\n-1.5 2\n'))[1].tolist() == [[-1.5, 2.]]
try:
    v = parse_value_function(io.StringIO('0\n1e-07 2\n'))[1].tolist()
except Exception as e:
    v = e
assert v == [[1e-07, 2.]], v
'''
