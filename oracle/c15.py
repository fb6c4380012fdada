import numpy as np
from gen import supportive_task, describe_supportive

N = (700, 12000)
RULE = ('random supportive tasks; all actions, random states, exogenous changes switched off or certain so that '
        'the outcome set of every transition is known exactly, default probabilities for the general rules')


def cond_outcomes(conds, objs, cost):
    """Set of (objects, reward) after the conditions of a step."""
    outs = [(tuple(objs), 0.)]
    for c, o in conds:
        n = []
        for ob, r in outs:
            r2 = r if ob[o] else r - cost
            for v in {0: (0,), 1: (1,), 2: (0, 1)}[c]:
                x = list(ob)
                x[o] = v
                n.append((tuple(x), r2))
        outs = list(set(n))
    return outs


def case(rng, i, ck):
    from task_models.supportive import SupportivePOMDP
    task, objs = supportive_task(rng, pmax=2)
    root = task.root
    if describe_supportive(root).count('act') > 120:
        ck.skip = True
        return
    m = SupportivePOMDP(root)
    if len(m.htm_nodes) > 60 or len(m.objects) > 4:
        ck.skip = True
        return
    for k in ('r_subtask', 'r_final', 'r_preference', 'cost_get', 'cost_intrinsic', 'cost_hold'):
        if rng.random() < .5:
            setattr(m, k, float(rng.choice([1, 2, 3, 5, 7, 11, 13])))
    m.reward_independent_preference = rng.random() < .5
    m.p_fail = rng.choice([0., 1., .01, .5])
    m.p_consume_all = rng.choice([0., .5, 1.])
    pc, pp = rng.choice([0., 0., 1., .01]), rng.choice([0., 0., 1., .01])
    m.p_changed_by_human, m.p_change_preference = pc, pp
    nobj, nn = len(m.objects), len(m.htm_nodes)
    name = {}
    for a, nm in enumerate(m.actions):
        name[a] = nm
    ck.input(describe_supportive(root), 'p=', (m.p_fail, m.p_consume_all, pc, pp),
             'r=', (m.r_subtask, m.r_final, m.r_preference, m.cost_get, m.cost_intrinsic, m.cost_hold,
                    m.reward_independent_preference))
    conds = [[(c, m.objects.index(o)) for c, o in n.action.conditions] for n in m.htm_nodes]
    succs = [list(x) for x in m.htm_succs]
    base_desc = ck.desc
    for _ in range(40):
        s = rng.randrange(m.n_states)
        if rng.random() < .5:
            st = m._int_to_state(s)
            st.htm = rng.choice([nn, nn + 1, rng.randrange(nn)])
            s = st.to_int()
        a = rng.randrange(m.n_actions)
        random = rng.random() < .6
        ck.desc = base_desc + ' a=%d s=%d random=%s' % (a, s, random)
        n0 = m.n_simulator_calls
        new, obs, r = m.sample_transition(a, s, random=random) if not random or rng.random() < .5 \
            else m.sample_transition(a, s)
        ck.eq(m.n_simulator_calls, n0 + 1, 'simulator calls')
        ck.that(0 <= new < m.n_states, 'valid state', new)
        ck.that(obs in (0, 1, 2, 3, 4), 'valid observation', obs)
        o, n = m._int_to_state(s), m._int_to_state(new)
        h, h2 = int(o.htm), int(n.htm)
        oo = [int(o.has_object(k)) for k in range(nobj)]
        no_ = [int(n.has_object(k)) for k in range(nobj)]
        pref, pref2 = int(o.has_preference(0)), int(n.has_preference(0))
        nm = name[a]
        # rules that hold whatever the draws
        if h2 != h:
            ck.that(nm in ('wait', 'hold H', 'hold V'), 'position changes by waiting or holding only', nm)
            ck.that(obs != m.O_FAIL, 'position never changes on a failure')
            ck.that((h < nn and h2 in succs[h]) or (h == nn and h2 == nn + 1 and nm == 'wait'),
                    'declared successor', h, h2)
        if h == nn + 1:
            ck.eq(h2, h, 'final states remain final')
        ck.eq(int(n.has_body_feature(0)), int(o.has_body_feature(0)), 'body feature unchanged')
        if random and (pc == .01 or pp == .01):
            continue
        # exact rules from the intermediate state
        if random and pc == 1.:
            oo = [1 - x for x in oo]
        if random and pp == 1.:
            pref = 1 - pref
        got = (h2, tuple(no_), int(obs), round(float(r), 9))
        same = (h, tuple(oo))
        ck.eq(pref2, pref, 'preference')
        if nm in ('wait', 'hold H', 'hold V'):
            b = 0. if nm == 'wait' else -m.cost_hold
            if h == nn + 1:
                want = {same + (m.O_NONE, b)}
            elif h == nn:
                want = {(nn + 1, tuple(oo), m.O_NONE, b - m.cost_get * sum(oo) + m.r_final)} if nm == 'wait' \
                    else {same + (m.O_FAIL, b)}
            else:
                hold = m.htm_nodes[h].action.hold
                match = pref and ((hold == 'h' and nm == 'hold H') or (hold == 'v' and nm == 'hold V'))
                b2 = b + m.r_subtask + (m.r_preference if match else 0.)
                if m.reward_independent_preference and not pref:
                    b2 += m.r_preference - m.cost_hold
                suc = {(x, ob, m.O_NONE, round(b2 + rr, 9)) for x in succs[h]
                       for ob, rr in cond_outcomes(conds[h], oo, m.cost_get)}
                fail = {same + (m.O_FAIL, b)}
                want = suc if match or nm == 'wait' else (suc | fail if random else fail)
        elif nm == 'ask hold':
            r0 = -m.cost_intrinsic
            want = {same + (m.O_YES if pref else m.O_NO, r0)}
            if random:
                want.add(same + (m.O_NONE, r0))
        else:
            op, ob = nm.split(' ', 1)
            k = m.objects.index(ob)
            r0 = -m.cost_intrinsic
            if oo[k] == (1 if op == 'bring' else 0):
                want = {same + (m.O_NOT_FOUND, r0)}
            else:
                x = list(oo)
                x[k] = 1 if op == 'bring' else 0
                ok, fail = (h, tuple(x), m.O_NONE, r0), same + (m.O_FAIL, r0)
                want = {ok} if not random or m.p_fail == 0. else ({fail} if m.p_fail == 1. else {ok, fail})
        want = {w[:3] + (round(float(w[3]), 9),) for w in want}
        ck.that(got in want, 'outcome (position, objects, observation, reward)', got, sorted(want)[:6])
