import numpy as np
from gen import tree, describe, layout

N = (600, 10000)
RULE = 'random task trees with repeated objects, looping or not, with and without missing answers, random costs'
NONE, YES, NO, ERR = range(4)


def case(rng, i, ck):
    from task_models.bring_next_to_pomdp import CollaborativeAction, HTMToPOMDP
    from task_models.task import HierarchicalTask
    objs = ['leg', 'top', 'screws', 'x'][:rng.randint(1, 4)]
    cnt = [0]

    def leaf():
        cnt[0] += 1
        return CollaborativeAction('Bring %d' % cnt[0], rng.choice(objs))
    task = HierarchicalTask(root=tree(rng, rng.randint(0, 3), leaf, probs=True, pmax=3 if i % 4 == 0 else 2))
    steps, first = layout(task.root)
    if len(steps) > 30:
        ck.skip = True
        return
    opts = {}
    for k, vs in (('end_reward', [0., 10., 33.]), ('discount', [None, .5]), ('loop', [True, False]), ('no_answer', [True, False])):
        if rng.random() < .7:
            opts[k] = rng.choice(vs)
    tc, tg, te = rng.sample([1., 2., 5., 7., 11.], 3)
    ck.input(describe(task.root), [s[0].obj for s in steps], (tc, tg, te), opts)
    b = HTMToPOMDP(tc, tg, te, objs, **opts)
    m = b.task_to_pomdp(task)
    loop = opts.get('loop', True)
    n, no = len(steps), len(objs)
    end = n
    ck.eq(len(m.states), n + 1, 'number of states')
    A = list(m.actions)
    ck.eq(sorted(A), sorted(['get-' + o for o in objs] + ['ask-' + o for o in objs]), 'actions')
    s0, T, O, R = np.asarray(m.start), m.T, m.O, -m.R
    ck.that((s0 >= 0).all(), 'start is non-negative')
    ck.close(s0.sum(), 1., 'start sums to one')
    ck.that(all(s0[s] == 0 or s in first for s in range(n + 1)), 'start in the first steps', s0.tolist())
    ck.that((T >= 0).all() and (O >= 0).all(), 'probabilities')
    ck.close(T.sum(-1), np.ones(T.shape[:2]), 'transition rows sum to one')
    ck.close(O.sum(-1), np.ones(O.shape[:2]), 'observation rows sum to one')
    er = opts.get('end_reward', 10.)
    for k, (act, _, nxt) in enumerate(steps):
        follow = [end if y == 'end' else y for y in nxt]
        for o in objs:
            g, q = A.index('get-' + o), A.index('ask-' + o)
            right = o == act.obj
            if right:
                ck.that(all(T[g, k, t] == 0 or t in follow for t in range(n + 1)), 'getting the object moves on', k)
            else:
                ck.close(T[g, k, k], 1., 'getting another object changes nothing')
            ck.close(T[q, k, k], 1., 'asking changes nothing')
            ck.that((O[q, k, YES] > 0) == right and (O[q, k, NO] > 0) == (not right) and O[q, k, ERR] == 0,
                    'answer about %s in step %d' % (o, k), O[q, k].tolist())
            for t in range(n + 1):
                if T[g, k, t] > 0:
                    x = (tg if right else te) - (er if t == end and not loop else 0.)
                    ck.close(R[g, k, t], np.full(R.shape[3:], x), 'cost of getting %s in step %d' % (o, k))
                if T[q, k, t] > 0:
                    ck.close(R[q, k, t], np.full(R.shape[3:], tc), 'cost of asking')
    for o in objs:
        ck.close(O[A.index('ask-' + o), end, YES], 0., 'no positive answer at the end')
    if loop:
        ck.that(all((T[:, end, t] == 0).all() or t in first for t in range(n + 1)), 'looping restarts the task')
        ck.close(R[:, end], np.full(R.shape[2:], -er)[None].repeat(len(A), 0), 'end reward on restart')
    else:
        ck.close(T[:, end, end], np.ones(len(A)), 'end is stable')
        ck.close(R[:, end, end], np.zeros((len(A), R.shape[3])), 'nothing more at the end')
    d = opts.get('discount')
    ck.eq(m.discount, d if d is not None else (.9 if loop else 1.), 'discount')
