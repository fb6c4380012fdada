import numpy as np
from gen import comm_model

N = (500, 8000)
RULE = 'random task trees (leaves, sequences, alternatives with and without probabilities, parallel nodes), all options, random durations and probabilities'


def case(rng, i, ck):
    x = comm_model(rng, ck)
    if x is None:
        return
    b, ts, opts, task, steps, first, m = x
    n = 3 * len(steps)
    endr = n if 'reward_state' in opts else None
    end = n + (1 if 'reward_state' in opts else 0)
    ck.eq(len(m.states), end + 1, 'number of states')
    ck.eq(len(m.actions), 1 + 4 * len(steps), 'number of actions')
    s0 = np.asarray(m.start)
    ck.that((s0 >= 0).all(), 'start is non-negative')
    ck.close(s0.sum(), 1., 'start sums to one')
    for s in range(end + 1):
        ck.that(s0[s] == 0 or (s < n and s % 3 == 0 and s // 3 in first), 'start in the first steps', s)
    T = m.T
    ck.that((T >= 0).all() and (T <= 1 + 1e-12).all(), 'transition probabilities')
    ck.close(T.sum(-1), np.ones(T.shape[:2]), 'transition rows sum to one')
    after = n if endr is None else endr
    for k, (act, _, nxt) in enumerate(steps):
        ok = {3 * k, 3 * k + 1, 3 * k + 2} | {after if y == 'end' else 3 * y for y in nxt}
        for s in range(3 * k, 3 * k + 3):
            bad = [(a, t) for a in range(T.shape[0]) for t in np.flatnonzero(T[a, s]) if t not in ok]
            ck.eq(bad, [], 'step %s only stays or enters a following step' % act.name)
    if endr is not None:
        ck.close(T[:, endr, end], np.ones(T.shape[0]), 'reward state leads to the end')
    if 'loop' in opts:
        for t in range(end + 1):
            ck.that((T[:, end, t] == 0).all() or (t < n and t % 3 == 0 and t // 3 in first),
                    'looping restarts the task', t)
    else:
        ck.close(T[:, end, end], np.ones(T.shape[0]), 'end is stable')
