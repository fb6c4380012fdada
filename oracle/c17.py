N = (1500, 30000)
RULE = 'random update sequences (values of both signs, repeated values), recency weights 0, 1 and in between; three nodes'


def case(rng, i, ck):
    from task_models.lib.pomcp import _ValueAverage, _SearchObservationNode, _SearchActionNode
    ws = [rng.choice([0, 0., 1, .5, .001, rng.random()]) for _ in range(3)]
    nodes = [_ValueAverage(alpha=ws[0]), _SearchActionNode(alpha=ws[1]),
             _SearchObservationNode(None, 2, alpha=ws[2])]
    avgs = [nodes[0], nodes[1]._avg, nodes[2]._avg]
    ref = [(0, 0.) for _ in nodes]
    seen = [[] for _ in nodes]
    hist = []
    ck.input('weights', ws, hist)
    n = rng.choice([3, 10, 40])
    scale = rng.choice([1., 1., 1000., .01])
    for _ in range(n):
        k = rng.randrange(3)
        v = rng.choice([0., scale, -scale, scale * rng.random(), -scale * rng.random(), scale * rng.randint(-9, 9)])
        nodes[k].update(v)
        hist.append((k, v))
        if len(hist) < 15:
            ck.input('weights', ws, hist)
        c, val = ref[k]
        w = ws[k]
        ref[k] = (c + 1, (1 - w) * ((c * val + v) / (c + 1.)) + w * v)
        seen[k].append(v)
        for j in range(3):
            c, val = ref[j]
            ck.eq(nodes[j].n_simulations, c, 'count of node %d' % j)
            tol = 1e-7 * scale
            ck.that(abs(nodes[j].value - val) <= tol, 'value of node %d' % j, nodes[j].value, val)
            if seen[j]:
                ck.that(min(seen[j]) - tol <= nodes[j].value <= max(seen[j]) + tol, 'value within the returns', j)
                if w == 0 and ws[j] == 0:
                    ck.that(abs(nodes[j].value - sum(seen[j]) / len(seen[j])) <= tol, 'mean of node %d' % j)
            else:
                ck.eq(nodes[j].value, 0, 'value before any update')
    ck.that(avgs[0].value == nodes[0].value, 'value')
