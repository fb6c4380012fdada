import numpy as np
from gen import pomdp, belief

N = (400, 8000)
RULE = 'random small POMDPs with zero entries, beliefs, all (action, observation) pairs'


def case(rng, i, ck):
    from task_models.lib.pomdp import Impossible
    from task_models.lib.belief import ArrayBelief
    m = pomdp(rng)
    b = belief(rng, m.n_states)
    T, O, R, s0 = [x.copy() for x in (m.T, m.O, m.R, m.start)]
    ck.input('T=', T.tolist(), 'O=', O.tolist(), 'b=', b.tolist())
    b0 = b.copy()
    for a in range(m.n_actions):
        for o in range(m.n_observations):
            w = [sum(b0[s] * T[a, s, t] for s in range(m.n_states)) * O[a, t, o]
                 for t in range(m.n_states)]
            tot = sum(w)
            if all(x == 0 for x in w):
                ck.raises(Impossible, lambda: m.belief_update(a, o, b),
                          'impossible observation %s after action %s' % (o, a))
                ck.raises(Impossible, lambda: ArrayBelief(b).successor(m, a, o),
                          'impossible observation (array belief)')
            else:
                ck.close(m.belief_update(a, o, b), np.array(w) / tot, 'posterior for a=%d o=%d' % (a, o))
                n = ArrayBelief(b).successor(m, a, o)
                ck.that(isinstance(n, ArrayBelief), 'successor is an array belief')
                ck.close(n.array, np.array(w) / tot, 'successor belief for a=%d o=%d' % (a, o))
                ck.close(n.array.sum(), 1., 'posterior sums to one')
            ck.same(b, b0, 'belief unchanged')
    for x, y in zip((m.T, m.O, m.R, m.start), (T, O, R, s0)):
        ck.same(x, y, 'model unchanged')
