N = (1200, 20000)
RULE = 'random graphs with empty and non-empty labels, random node sets, new node inside, outside or elsewhere in the graph'


def case(rng, i, ck):
    from task_models.task import BaseGraph, ConjugateTaskGraph, AbstractAction
    conj = rng.random() < .5
    g = ConjugateTaskGraph() if conj else BaseGraph()
    n = rng.randint(1, 6)
    names = [AbstractAction('n%d' % k) for k in range(n)]
    if conj:
        names += [g.initial, g.terminal]
    tr = set()
    for _ in range(rng.randint(0, 14)):
        tr.add((rng.choice(names), rng.choice(['', 'x', 'y']), rng.choice(names)))
    for t in sorted(tr, key=str):
        g.add_transition(*t)
    for _ in range(rng.choice([1, 1, 2])):
        nodes = set(rng.sample(names, rng.randint(0, len(names))))
        new = rng.choice([AbstractAction('new%d' % rng.randrange(100)), rng.choice(names)])
        ck.input('transitions', sorted(map(str, tr)), 'nodes', sorted(map(str, nodes)), 'new', str(new))
        ini, ter = (g.initial, g.terminal) if conj else (None, None)
        arg = list(nodes) if rng.random() < .5 else set(nodes)
        g.compact(arg, new)
        want = set()
        for s, l, d in tr:
            a, b = s in nodes, d in nodes
            if a and b:
                continue
            want.add((new if a else s, '' if a or b else l, new if b else d))
        tr = want
        got = list(g.all_transitions())
        ck.eq(sorted(map(str, got)), sorted(map(str, tr)), 'transitions after compaction')
        ck.eq(set(got), tr, 'transitions after compaction')
        for s, l, d in tr:
            ck.that(g.has_transition(s, l, d), 'redirected transition is found')
        if conj:
            ck.that(g.initial == (new if ini in nodes else ini), 'initial marker', str(g.initial))
            ck.that(g.terminal == (new if ter in nodes else ter), 'terminal marker', str(g.terminal))
            ck.eq(ConjugateTaskGraph.initial.name, 'initial', 'other graphs keep their markers')
            ck.eq(ConjugateTaskGraph.terminal.name, 'terminal', 'other graphs keep their markers')
        if rng.random() < .5:
            names = names + [new]
