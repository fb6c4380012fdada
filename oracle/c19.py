import numpy as np
from gen import pomdp

N = (400, 6000)
RULE = ('random models, discounts, horizons, array and particle beliefs, rollout counts; a tree grown by earlier '
        'simulations; every transition recorded')


def nodes(node, out=None):
    """All statistics nodes of a tree: {id: (node, visits, value)}"""
    out = {} if out is None else out
    if node is None or id(node) in out:
        return out
    out[id(node)] = (node, node.n_simulations, node.value)
    ch = node.children.values() if isinstance(node.children, dict) else node.children
    for c in ch:
        nodes(c, out)
    return out


def case(rng, i, ck):
    from task_models.lib import pomcp, belief
    m = pomdp(rng, names=True)
    m.discount = rng.choice([0., .5, .9, 1.])
    h = rng.randint(0, 4)
    roll = rng.choice([1, 1, 2, 3])
    kind = rng.choice(['array', 'array', 'particle'])
    w = rng.choice([0, .001, .3])
    tree = pomcp._SearchTree(m, pomcp.NTransitionsHorizon.generator(m, n=h), rng.choice([0, 1., 50]),
                             relative_exploration=rng.random() < .3, rollout_it=roll, belief=kind,
                             belief_params={} if kind == 'array' else {'n_particles': rng.choice([2, 10])},
                             node_params={'alpha': w})
    pre = rng.choice([0, 1, 5, 15])
    ck.input('T=', m.T.tolist(), 'O=', m.O.tolist(), 'R=', m.R.tolist(), 'discount', m.discount, 'horizon', h,
             'rollouts', roll, kind, 'alpha', w, 'earlier simulations', pre)
    for _ in range(pre):
        tree.simulate_from_node(tree.root)
    log = []
    real = m.sample_transition
    insucc = [0]

    def rec(a, s):
        r = real(a, s)
        if not insucc[0]:
            log.append((int(a), s) + tuple(r))
        return r
    m.sample_transition = rec
    orig = belief.ParticleBelief.successor

    def succ(self, *a):
        insucc[0] += 1
        try:
            return orig(self, *a)
        finally:
            insucc[0] -= 1
    belief.ParticleBelief.successor = succ
    try:
        body(rng, ck, m, tree, h, roll, kind, w, log, pomcp)
    finally:
        belief.ParticleBelief.successor = orig


def body(rng, ck, m, tree, h, roll, kind, w, log, pomcp):
    # choose a node of the tree
    obs = [n for n, _, _ in nodes(tree.root).values() if hasattr(n, 'belief')]
    for _ in range(3):
        node = rng.choice(obs)
        del log[:]
        before = nodes(tree.root)
        kids = {id(n): dict(n.children) for n, _, _ in before.values() if isinstance(n.children, dict)}
        mode = rng.choice(['sim', 'inner', 'rollout'])
        act = rng.randrange(m.n_actions) if rng.random() < .5 else None
        if mode == 'rollout':
            hz = pomcp.NTransitionsHorizon(h)
            ret = tree.rollout_from_node(node, hz)
            ck.eq(hz.n, h, "rollout does not consume the caller's horizon")
            exp = check_rollouts(ck, m, node, log, h, roll)
            if exp is None:
                ck.close(ret, 0, 'rollout at the horizon')
                want = {}
            else:
                ck.close(ret, exp, 'rollout return')
                want = {id(node): exp}
        elif mode == 'inner':
            hz = pomcp.NTransitionsHorizon(h)
            strange = rng.random() < .2
            state = rng.randrange(m.n_states) if strange else int(node.belief.sample())
            v0 = node.value
            try:
                if act is None:
                    ret = tree._simulate_from_node(node, state, hz)
                else:
                    ret = tree._simulate_from_node(node, state, hz, a=act)
            except ValueError:
                if strange:  # impossible observation for the belief
                    return
                raise
            if h == 0:
                ck.close(ret, v0, 'value at the horizon')
                want = {}
                ck.eq(len(log), 0, 'no transition at the horizon')
            else:
                want = {}
                exp = follow(ck, m, tree, node, state, act, before, kids, list(log), h, roll, want, kind)
                ck.close(ret, exp, 'return of the simulation')
        else:
            tree.simulate_from_node(node, action=act)
            want = {}
            if h == 0:
                ck.eq(len(log), 0, 'no transition at the horizon')
            else:
                s = log[0][1]
                ck.that(node.belief.array[s] > 0, 'start state sampled from the belief', s)
                follow(ck, m, tree, node, s, act, before, kids, list(log), h, roll, want, kind)
        after = nodes(tree.root)
        for k, (n, c, v) in after.items():
            c0, v0 = before[k][1:] if k in before else (0, 0.)
            if k in want:
                x = want[k]
                ck.eq(c, c0 + 1, 'recorded once')
                ck.close(v, (1 - w) * ((c0 * v0 + x) / (c0 + 1.)) + w * x, 'recorded return', tol=1e-7)
            else:
                ck.eq(c, c0, 'no other node is updated')
                ck.close(v, v0, 'no other value changes')
        obs = [n for n, _, _ in after.values() if hasattr(n, 'belief')]


def check_rollouts(ck, m, node, log, h, roll):
    """log: transitions of all rollouts; returns the average return."""
    if h <= 0:
        ck.eq(len(log), 0, 'no transition at the horizon')
        return None
    ck.eq(len(log), h * roll, 'transitions of the rollouts')
    tot = 0.
    for k in range(roll):
        part = log[k * h:(k + 1) * h]
        ck.that(node.belief.array[part[0][1]] > 0, 'rollout starts from the belief')
        for x, y in zip(part[:-1], part[1:]):
            ck.eq(y[1], x[2], 'rollout goes on from the reached state')
        tot += sum(m.discount ** j * t[4] for j, t in enumerate(part))
    return tot / roll


def follow(ck, m, tree, node, state, act, before, kids, log, h, roll, want, kind):
    ck.that(bool(log), 'a transition is simulated')
    a, s, s2, o, r = log.pop(0)
    ck.eq(s, state, 'transition from the current state')
    if act is not None:
        ck.eq(a, act, 'given action')
    child = node.children[a]
    ck.that(child is not None, 'action node exists')
    old = kids.get(id(child), {})
    if o in old:
        nxt = old[o]
        ck.that(child.children[o] is nxt, 'existing node is kept')
        if h == 1:
            ck.eq(len(log), 0, 'horizon consumed once per transition')
            rest = before[id(nxt)][2]
        else:
            rest = follow(ck, m, tree, nxt, s2, None, before, kids, log, h - 1, roll, want, kind)
    elif o in child.children:
        new = child.children[o]
        if kind == 'array':
            b = node.belief.array.dot(m.T[a]) * m.O[a, :, o]
            ck.close(new.belief.array, b / b.sum(), 'belief of the new node')
        else:
            b = node.belief.array.dot(m.T[a]) * m.O[a, :, o]
            ck.that(((new.belief.array > 0) <= (b > 0)).all(), 'belief of the new node', new.belief.array.tolist())
        rest = check_rollouts(ck, m, new, log, h - 1, roll)
        if rest is None:
            rest = 0.
        else:
            want[id(new)] = rest
        del log[:]
    else:
        ck.eq(kind, 'particle', 'node is created')
        ck.eq(len(log), 0, 'nothing simulated without a node')
        rest = 0.
    full = r + m.discount * rest
    ck.that(id(child) not in want and id(node) not in want, 'tree')
    want[id(child)] = full
    want[id(node)] = full
    return full
