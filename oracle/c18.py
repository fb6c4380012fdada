import math

N = (1500, 40000)
RULE = 'random nodes of 1..5 actions: values, visit counts, unexplored actions, exploration constants, relative mode'


def case(rng, i, ck):
    from task_models.lib.pomcp import _SearchObservationNode, _SearchActionNode
    na = rng.randint(1, 5)
    node = _SearchObservationNode(None, na, alpha=0)
    kind = rng.choice(['all', 'all', 'all', 'some'])
    tot = 0
    st = []
    for a in range(na):
        if kind == 'some' and rng.random() < .4:
            n = 0
        else:
            n = rng.choice([1, 1, 2, 3, 7, 50])
        if n or rng.random() < .5:
            c = node.safe_get_child(a)
            v = rng.choice([-3., 0., 1., 1., 2.5, rng.uniform(-50, 50)])
            for _ in range(n):
                c.update(v)
        st.append((n, v if n else None))
        tot += n
    extra = rng.choice([0, 0, 1, 20])
    for _ in range(tot + extra):
        node.update(rng.uniform(-5, 5))
    c = rng.choice([0, 0, 0., .5, 1, 10., 100])
    rel = rng.random() < .5
    ck.input('children (visits, value)', st, 'visits', tot + extra, 'exploration', c, 'relative', rel)
    before = (node.n_simulations, node.value, [None if x is None else (x.n_simulations, x.value) for x in node.children])
    un = [a for a in range(na) if st[a][0] == 0]
    for _ in range(4):
        if c == 0 and not rel and rng.random() < .5:
            a = node.get_best_action()
        else:
            a = node.get_best_action(exploration=c, relative_exploration=rel)
        ck.that(0 <= a < na, 'valid action', a)
        if un:
            ck.that(a in un, 'unexplored actions first', a, un)
        else:
            vals = [v for _, v in st]
            k = c * (max(vals) - min(vals)) if rel and c > 0 else c
            ub = [v + k * math.sqrt(math.log(tot + extra) / n) for n, v in st]
            ck.that(ub[a] >= max(ub) - 1e-6 * (1 + abs(max(ub))), 'best upper bound', int(a), ub)
    after = (node.n_simulations, node.value, [None if x is None else (x.n_simulations, x.value) for x in node.children])
    ck.eq(after, before, 'node unchanged')
