import numpy as np
from gen import pomdp

N = (300, 5000)
RULE = ('random models; random sequences of action requests, possible, impossible and unknown observations, resets; '
        'array and particle beliefs, with and without node sharing')


def case(rng, i, ck):
    from task_models.lib import pomcp
    from task_models.lib.pomdp import Impossible
    from task_models.lib.belief import MaxSamplesReached
    m = pomdp(rng, names=True)
    m.discount = rng.choice([.5, 1.])
    kind = rng.choice(['array', 'array', 'array', 'particle'])
    lookup = kind == 'array' and rng.random() < .4
    it = rng.choice([m.n_actions, m.n_actions + 3, 12])
    p = pomcp.POMCPPolicyRunner(m, iterations=it, horizon=rng.randint(1, 3), belief_values=lookup, belief=kind,
                                belief_params={} if kind == 'array' else {'n_particles': 5},
                                logger=lambda *a: None)
    ops = []
    desc = ('T=', m.T.tolist(), 'O=', m.O.tolist(), 'start=', m.start.tolist(), kind, 'shared', lookup, 'iterations', it)
    ck.input(*(desc + (ops,)))
    A, Z = list(m.actions), list(m.observations)
    root = p.tree.root
    hist, node, b, last = [], root, m.start.copy(), None
    ck.raises(ValueError, lambda: p.step(Z[0]), 'observing before any action')
    for _ in range(12):
        op = rng.choice(['act', 'act', 'obs', 'obs', 'obs', 'obs', 'bad', 'reset'] if last is not None else ['act'] * 3 + ['reset'])
        ops.append(op)
        ck.input(*(desc + (ops,)))
        if op == 'act':
            a = p.get_action() if rng.random() < .7 else p.get_action(iterations=it + 1)
            ck.that(a in A, 'known action', a)
            last = A.index(a)
        elif op == 'reset':
            p.reset()
            hist, node, b, last = [], root, m.start.copy(), None
            ck.raises(ValueError, lambda: p.step(Z[0]), 'observing before any action (after a reset)')
        elif op == 'bad':
            ck.raises(ValueError, lambda: p.step('no such observation'), 'unknown observation')
        else:
            o = rng.randrange(len(Z))
            ops[-1] = 'obs %s' % Z[o]
            nb = b.dot(m.T[last]) * m.O[last, :, o]
            if not nb.any():
                ck.raises((Impossible, MaxSamplesReached), lambda: p.step(Z[o]), 'impossible observation')
            else:
                old = node.children[last].children.get(o) if node.children[last] is not None else None
                try:
                    p.step(Z[o])
                    ok = True
                except MaxSamplesReached:
                    ck.eq(kind, 'particle', 'moving fails')
                    ok = False
                if ok:
                    hist += [last, o]
                    n = node.children[last].children[o]
                    ck.that(old is None or n is old, 'existing node is kept')
                    node = n
                    b = nb / nb.sum()
                    if kind == 'particle':
                        b = node.belief.array
                    last = None if rng.random() < .999 else last
        ck.eq([int(x) for x in p.history], hist, 'history')
        ck.that(p._node is node, 'position is the node reached by the history')
        ck.that(p.tree.root is root, 'root kept')
        ck.that(p.belief is node.belief, 'belief of the position')
        if kind == 'array':
            ck.close(node.belief.array, b, 'belief of the position', tol=1e-7)
        ck.that(p.tree.get_node(list(p.history)) is node, 'looking the history up again')
        if last is None and op != 'reset' and not op == 'act':
            # the next observation needs a new action request
            ops.append('act')
            a = p.get_action()
            last = A.index(a)
            ck.eq([int(x) for x in p.history], hist, 'history')
            ck.that(p._node is node, 'position')
    # histories of which only a prefix is in the tree
    if kind == 'array':
        for _ in range(3):
            b, h = m.start.copy(), []
            for _ in range(rng.randint(1, 4)):
                a = rng.randrange(m.n_actions)
                nb = b.dot(m.T[a])
                os = [o for o in range(len(Z)) if nb.dot(m.O[a, :, o]) > 1e-6]
                o = rng.choice(os)
                nb = nb * m.O[a, :, o]
                b = nb / nb.sum()
                h += [a, o]
            ck.input(*(desc + (ops, 'then get_node', h)))
            n = p.tree.get_node(list(h))
            ck.close(n.belief.array, b, 'belief of the node of a history', tol=1e-6)
            ck.that(p.tree.get_node(list(h)) is n, 'looking the history up again')
