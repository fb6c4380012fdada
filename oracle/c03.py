import numpy as np
from gen import pomdp

N = (300, 6000)
RULE = 'random POMDPs with zero probabilities; every action and state, 12 draws each'


def case(rng, i, ck):
    m = pomdp(rng)
    T, O, R, s0 = [x.copy() for x in (m.T, m.O, m.R, m.start)]
    ck.input('T=', T.tolist(), 'O=', O.tolist(), 'start=', s0.tolist())
    for a in range(T.shape[0]):
        for s in range(T.shape[1]):
            for _ in range(12):
                n, o, r = m.sample_transition(a, s)
                ck.that(0 <= n < T.shape[1] and T[a, s, n] > 0, 'end state possible', a, s, n)
                ck.that(0 <= o < O.shape[2] and O[a, n, o] > 0, 'observation possible', a, s, n, o)
                ck.eq(float(r), float(R[a, s, n, o]), 'reward of a=%d s=%d end=%d o=%d' % (a, s, n, o))
    for _ in range(12):
        s = m.sample_start()
        ck.that(0 <= s < len(s0) and s0[s] > 0, 'start state possible', s)
    # every possible outcome does occur
    seen = set()
    if s0.max() < .99:
        for _ in range(200):
            seen.add(int(m.sample_start()))
        ck.that(len(seen) > 1, 'start is sampled, not fixed')
    for x, y in zip((m.T, m.O, m.R, m.start), (T, O, R, s0)):
        ck.same(x, y, 'model unchanged')
