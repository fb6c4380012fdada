import numpy as np
from gen import comm_model, layout

N = (400, 6000)
RULE = 'as C08; in addition every step fills arrays pre-filled with a marker value'
NONE, YES, NO, ERR, DONE = range(5)


def case(rng, i, ck):
    x = comm_model(rng, ck)
    if x is None:
        return
    b, ts, opts, task, steps, first, m = x
    n = 3 * len(steps)
    endr = n if 'reward_state' in opts else None
    end = n + (1 if 'reward_state' in opts else 0)
    after = n
    O, R = m.O, -m.R
    ck.that((O >= 0).all(), 'observation probabilities')
    ck.close(O.sum(-1), np.ones(O.shape[:2]), 'observation rows sum to one')
    ck.eq(len(m.observations), 5 if 'loop' in opts or endr is not None else 4, 'observations')
    terminal = set()
    if 'loop' in opts or endr is not None:
        terminal = {after}
        ck.close(O[:, after, DONE], np.ones(O.shape[0]), 'the end is observed as done')
    if endr is not None:
        terminal = {endr, end}
    c = opts.get('intr_cost', 0)
    dur = [ts[0]]
    for act, _, _ in steps:
        dur += [act.durations[2], ts[1], ts[2], ts[1]]
    for k, (act, _, nxt) in enumerate(steps):
        phy, ai, ti, af = [1 + 4 * k + j for j in range(4)]
        si, sh, sr = 3 * k, 3 * k + 1, 3 * k + 2
        follow = {after if y == 'end' else 3 * y for y in nxt}
        for t in range(end + 1):
            if t in terminal:
                continue
            ck.close(O[ai, t, YES], 1. if t == sh else 0., 'yes exactly when the human has taken the step')
            ck.close(O[ai, t, NO], 1. if t == sr else 0., 'no exactly when the robot has taken the step')
            ck.close(O[phy, t, ERR], 0. if t in follow else 1., 'physical action of step %d ending in %d' % (k, t))
        for a in range(O.shape[0]):
            for s in (si, sh, sr):
                want = np.full(R.shape[2:], dur[a] + (c if a else 0.))
                if a == phy and s == sr:
                    want[:] = act.durations[1] + c
                if a == ti and 'structured' in opts:
                    want[:] = 100.
                    if s == si:
                        want[[sh, sr]] = ts[2] + c
                if 'subtask_reward' in opts:
                    want[[t for t in range(end + 1) if t not in (si, sh, sr)]] -= opts['subtask_reward']
                ck.close(R[a, s], want, 'cost of action %d in state %d' % (a, s))
    ck.close(O[0, [t for t in range(end + 1) if t not in terminal]][:, NONE],
             np.ones(end + 1 - len(terminal)), 'nothing observed on wait')
    er = opts.get('end_reward', 10.)
    ck.close(R[0, after], np.full(R.shape[2:], -er), 'waiting at the end pays the end reward')
    # each step fills only its own entries
    from task_models.task_to_pomdp import _NodeToPOMDP
    node = _NodeToPOMDP.from_node(task.root, ts[1], ts[2], subtask_reward=opts.get('subtask_reward'), flags=b.flags)
    ns, na = len(node.states), len(node.actions)
    off_s, off_a = rng.randint(0, 3), 1 + rng.randint(0, 3)
    S, A = off_s + ns + 2, off_a + na + 2
    nxt = [off_s + ns]
    ds = np.array([rng.choice([1., 2., 3.]) for _ in range(A)])
    R2 = np.full((A, S, S, 4), -77.)
    node.update_R(R2, 0, off_a, off_s, ds, c)
    own = range(off_s, off_s + ns)
    other = [s for s in range(S) if s not in own]
    ck.that((R2[:, other] == -77.).all(), 'costs of other states untouched')
    O2 = np.full((A, S, 4), -77.)
    node.update_O(O2, off_a, off_s, nxt, [], nxt)
    oa = [a for a in range(A) if not off_a <= a < off_a + na]
    ck.that((O2[oa] == -77.).all(), 'observations of other actions untouched')
    ck.that((O2[off_a:off_a + na] != -77.).all(), 'observations of own actions filled')
