PROPERTY = 'C04'
FILE = 'task_models/lib/pomdp.py'
OLD = """                   d['values'], init=int(d['initial']))
"""
NEW = """                   d['values'], init=int(d['initial'][-1]))
"""
NEEDS = 'a policy graph of more than ten nodes whose initial node has two digits'
BREAKS = 'the reloaded policy starts in another node'
DEMO = '''
from task_models.lib.pomdp import GraphPolicy
n = 15
for i in (3, 12):
    g = GraphPolicy(['x'] * n, ['o'], [[0]] * n, [[0.]] * n, init=i)
    assert GraphPolicy.from_json(g.to_json()).init == i, i
'''
