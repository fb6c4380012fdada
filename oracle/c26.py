from itertools import combinations

N = (800, 12000)
RULE = 'random symmetric graphs of up to 8 nodes; random conjugate graphs with self loops and parallel links'


def brute(nodes, adj):
    out = set()
    for r in range(2, len(nodes) + 1):
        for c in combinations(nodes, r):
            if all(y in adj[x] for x, y in combinations(c, 2)) and \
                    not any(all(z in adj[x] for x in c) for z in nodes if z not in c):
                out.add(frozenset(c))
    return out


def case(rng, i, ck):
    from task_models.task import max_cliques, ConjugateTaskGraph
    n = rng.randint(0, 8)
    nodes = list(range(n))
    dens = rng.choice([.2, .5, .8, 1.])
    adj = {x: set() for x in nodes}
    for x, y in combinations(nodes, 2):
        if rng.random() < dens:
            adj[x].add(y)
            adj[y].add(x)
    ck.input('graph', adj)
    snap = {x: set(y) for x, y in adj.items()}
    got = [frozenset(c) for c in max_cliques(adj)]
    ck.eq(len(set(got)), len(got), 'each clique once')
    ck.eq(set(got), brute(nodes, adj), 'maximal cliques')
    ck.eq(adj, snap, 'graph unchanged')
    g = ConjugateTaskGraph()
    n = rng.randint(1, 6)
    tr = set()
    for _ in range(rng.randint(0, 4 * n)):
        tr.add((rng.randrange(n), 'l%d' % rng.randrange(2), rng.randrange(n)))
    for s in range(n):
        if rng.random() < .2:
            tr.add((s, 'l', s))
        if rng.random() < .3:
            tr.add((g.initial, 'i', s))
        if rng.random() < .3:
            tr.add((s, 't', g.terminal))
    for t in sorted(tr, key=str):
        g.add_transition(*t)
    ck.input('conjugate', sorted(map(str, tr)))
    pairs = {(s, d) for s, _, d in tr}
    adj = {}
    for s, d in pairs:
        adj.setdefault(s, set())
        adj.setdefault(d, set())
        if s != d and (d, s) in pairs:
            adj[s].add(d)
            adj[d].add(s)
    got = [frozenset(c) for c in g.get_max_cliques()]
    ck.eq(len(set(got)), len(got), 'each clique of the conjugate once')
    ck.eq(set(got), brute(list(adj), adj), 'maximal cliques of the conjugate')
    ck.eq(set(g.all_transitions()), tr, 'conjugate unchanged')
