import numpy as np
from gen import pomdp, belief

N = (250, 4000)
RULE = 'random policy graphs over random models; belief runners, observation sequences, trees of horizon -1..3'


def best(ck, vals, b, node, what):
    v = vals.dot(b)
    ck.that(0 <= node < len(vals), what + ': node exists', node)
    ck.that(v[node] >= v.max() - 1e-9, what + ': optimal node', node, v.tolist())


def bayes(T, O, a, o, b):
    w = b.dot(T[a]) * O[a, :, o]
    return None if not w.any() else w / w.sum()


def tree(ck, env, t, b, h, what):
    T, O, vals, acts, A, Z = env
    ck.eq(sorted(t), ['action', 'belief', 'children', 'node', 'observations'], what + ': fields')
    ck.close(t['belief'], b, what + ': belief')
    best(ck, vals, b, t['node'], what)
    ck.eq(t['action'], acts[t['node']], what + ': action')
    a = A.index(t['action'])
    posts = [bayes(T, O, a, o, b) for o in range(len(Z))]
    want = [o for o in range(len(Z)) if posts[o] is not None] if h >= 1 else []
    ck.eq(list(t['observations']), [Z[o] for o in want], what + ': observations')
    ck.eq(len(t['children']), len(want), what + ': children')
    for o, c in zip(want, t['children']):
        tree(ck, env, c, posts[o], h - 1, what + '/' + str(Z[o]))


def case(rng, i, ck):
    from task_models.lib.pomdp import (GraphPolicy, GraphPolicyRunner, GraphPolicyBeliefRunner, Impossible)
    m = pomdp(rng)
    na, ns, no = m.O.shape
    T, O, s0 = m.T.copy(), m.O.copy(), m.start.copy()
    A, Z = list(m.actions), list(m.observations)
    nn = rng.randint(1, 5)
    vals = np.array([[rng.randint(-40, 40) / 4. for _ in range(ns)] for _ in range(nn)])
    if rng.random() < .2:
        vals = vals * 1e-7 + rng.choice([0., 3.])
    trans = [[None if rng.random() < .25 else rng.randrange(nn) for _ in range(no)] for _ in range(nn)]
    acts = [rng.choice(A) for _ in range(nn)]
    ck.input('T=', T.tolist(), 'O=', O.tolist(), 'start=', s0.tolist(), 'values=', vals.tolist(),
             'transitions=', trans, 'actions=', acts)
    g = GraphPolicy(acts, Z, trans, vals, start=m.start)
    best(ck, vals, s0, g.init, 'initial node')
    ck.eq(GraphPolicy(acts, Z, trans, vals, init=nn - 1).init, nn - 1, 'given initial node')
    for _ in range(3):
        b = belief(rng, ns)
        best(ck, vals, b, g.get_node_from_belief(b), 'node for a belief')
    # runner
    r = GraphPolicyRunner(g)
    ck.eq(r.current, g.init, 'runner starts in the initial node')
    if rng.random() < .5:
        b = belief(rng, ns)
        r.reset(b)
        best(ck, vals, b, r.current, 'runner reset on a belief')
    for _ in range(6):
        cur = int(r.current)
        ck.eq(r.get_action(), acts[cur], 'runner action')
        o = rng.randrange(no)
        if trans[cur][o] is None:
            ck.raises(Impossible, lambda: r.step(Z[o]), 'no transition')
            r.reset()
            ck.eq(r.current, g.init, 'runner reset')
        else:
            r.step(Z[o])
            ck.eq(r.current, trans[cur][o], 'runner transition')
    # belief runner
    br = GraphPolicyBeliefRunner(g, m)
    b = s0.copy()
    for _ in range(6):
        ck.close(br.current_belief, b, 'tracked belief')
        best(ck, vals, b, br.current, 'tracked node')
        ck.eq(br.get_action(), acts[br.current], 'tracked action')
        o = rng.randrange(no)
        n = bayes(T, O, A.index(acts[br.current]), o, b)
        if n is None:
            cur = br.current
            ck.raises(Impossible, lambda: br.step(Z[o]), 'impossible observation')
            ck.close(br.current_belief, b, 'belief kept on an impossible observation')
            ck.eq(br.current, cur, 'node kept on an impossible observation')
        else:
            br.step(Z[o])
            b = n
        if rng.random() < .15:
            b = belief(rng, ns)
            br.reset(b.copy())
    h = rng.choice([-1, 0, 1, 2, 3] if no < 3 else [-1, 0, 1, 2])
    cur = br.current
    t = br.trajectory_tree(h)
    env = (T, O, vals, acts, A, Z)
    tree(ck, env, t, b, h, 'tree')
    ck.close(br.current_belief, b, 'tree leaves the belief')
    ck.eq(br.current, cur, 'tree leaves the node')
    deflt = h == 2 and no * ns <= 2
    hh = 5 if deflt else h
    ts = br.trajectory_trees_from_starts() if deflt else br.trajectory_trees_from_starts(horizon=h)
    starts = [s for s in range(ns) if s0[s] > 0]
    ck.eq(len(ts['graphs']), len(starts), 'one tree per start state')
    for s, t in zip(starts, ts['graphs']):
        b = np.zeros(ns)
        b[s] = 1.
        tree(ck, env, t, b, hh, 'start tree')
    for x, y in zip((m.T, m.O, m.start), (T, O, s0)):
        ck.same(x, y, 'model unchanged')
