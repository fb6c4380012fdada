N = (1500, 20000)
LIMIT = 10
RULE = 'random graphs of up to 9 nodes with chains, cycles, self loops, parallel links, unreachable parts'


def case(rng, i, ck):
    from task_models.task import ConjugateTaskGraph
    g = ConjugateTaskGraph()
    n = rng.randint(1, 9)
    tr = set()
    m = rng.choice([n // 2, n, n + 1, 2 * n])
    mode = rng.choice(['any', 'path', 'fwd'])
    if mode == 'path':
        o = rng.sample(range(n), n)
        for x, y in zip(o[:-1], o[1:]):
            if rng.random() < .8:
                tr.add((x, 'l%d' % rng.randrange(2), y))
        if rng.random() < .5:
            tr.add((o[-1], 'l', o[rng.randrange(n)]))
        tr.add((g.initial, 'i', o[0]))
    for _ in range(m if mode != 'path' else rng.randint(0, 2)):
        x, y = rng.randrange(n), rng.randrange(n)
        if mode == 'fwd' and x >= y:
            continue
        tr.add((x, 'l%d' % rng.randrange(2), y))
    for s in range(n):
        if rng.random() < .25:
            tr.add((g.initial, 'i', s))
        if rng.random() < .2:
            tr.add((s, 't', g.terminal))
    if i % 4 == 3:
        for s in range(n):
            if rng.random() < .3:
                tr.add((s, 'r', g.initial))
        if rng.random() < .3:
            tr.add((g.terminal, 'r', g.initial if rng.random() < .6 else rng.randrange(n)))
    for t in sorted(tr, key=str):
        g.add_transition(*t)
    ck.input(sorted(map(str, tr)))
    succ, pred = {}, {}
    for s, _, d in tr:
        for x in (s, d):
            succ.setdefault(x, set())
            pred.setdefault(x, set())
        succ[s].add(d)
        pred[d].add(s)
    pred.setdefault(g.initial, set()).add('start')
    chains = []
    for c in g.get_max_chains():
        chains.append(tuple(c))
        ck.that(len(chains) <= 2 * n + 4, 'chain search ends', chains)
    ck.eq(len(set(chains)), len(chains), 'each chain once')
    used = set()
    for c in chains:
        ck.that(len(c) >= 2 and len(set(c)) == len(c), 'at least two distinct nodes', c)
        for x, y in zip(c[:-1], c[1:]):
            ck.eq(succ[x], {y}, 'single successor in %r' % (c,))
            ck.eq(pred[y], {x}, 'single predecessor in %r' % (c,))
        x = c[0]
        if len(pred[x]) == 1:
            y = list(pred[x])[0]
            ck.that(len(succ[y]) != 1 or y in c, 'cannot be extended at the front', c)
        x = c[-1]
        if len(succ[x]) == 1:
            y = list(succ[x])[0]
            ck.that(len(pred[y]) != 1 or y in c, 'cannot be extended at the end', c)
    ck.eq(set(g.all_transitions()), tr, 'graph unchanged')
