PROPERTY = 'C26'
FILE = 'task_models/task.py'
OLD = '        if len(clique) > 1:  # non-trivial\n'
NEW = '        if 1 < len(clique) < len(graph):  # non-trivial\n'
NEEDS = 'a complete graph'
BREAKS = 'the clique of all nodes is not reported'
DEMO = r'''
from itertools import combinations
from task_models.task import max_cliques, ConjugateTaskGraph
def brute(adj):
    out = []
    for r in range(2, len(adj) + 1):
        for c in combinations(sorted(adj), r):
            if all(y in adj[x] for x, y in combinations(c, 2)) and not any(all(z in adj[x] for x in c) for z in adj if z not in c):
                out.append(set(c))
    return sorted(map(sorted, out))
import random
rng = random.Random(5)
for _ in range(300):
    n = rng.randint(0, 7)
    adj = {x: set() for x in range(n)}
    for x, y in combinations(range(n), 2):
        if rng.random() < .6:
            adj[x].add(y); adj[y].add(x)
    got = sorted(map(sorted, max_cliques(adj)))
    assert got == brute(adj), (adj, got)
'''
