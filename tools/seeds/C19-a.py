PROPERTY = 'C19'
FILE = 'task_models/lib/pomcp.py'
OLD = "                    partial_return = 0.\n"
NEW = "                    child.update(r)\n                    return r\n"
NEEDS = 'a particle belief from which the simulated observation cannot be sampled again'
BREAKS = 'the return of that simulation is not recorded in the node'
DEMO = '''
from task_models.lib.pomcp import POMCPPolicyRunner
from task_models.lib.pomdp import POMDP
from task_models.lib.belief import MaxSamplesReached, ParticleBelief
m = POMDP(np.eye(2)[None], np.ones((1, 2, 2)) / 2, np.ones((1, 2, 2, 2)), np.array([1., 0.]), .9, actions=['go'],
          states=['x', 'y'], observations=['ox', 'oy'], values='reward')
p = POMCPPolicyRunner(m, iterations=1, horizon=3, exploration=1, logger=lambda *a: None)
def fail(model, a, o):
    raise MaxSamplesReached(a, o, None)
root = p.tree.root
root.belief.successor = fail
for i in range(5):
    p.tree.simulate_from_node(root)
    assert root.n_simulations == i + 1 and root.children[0].n_simulations == i + 1, root.n_simulations
    assert abs(root.value - 1.) < 1e-9
'''
