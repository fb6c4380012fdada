import datetime
from gen import supportive_task, describe_supportive

N = (300, 4000)
RULE = 'random supportive tasks, random policies, horizons and discounts; every transition recorded; horizon copies'


class Policy(object):
    def __init__(self, model, rng):
        self.model, self.rng, self.told, self.chosen, self.resets = model, rng, [], [], 0

    def reset(self):
        self.resets += 1
        self.told, self.chosen = [], []

    def get_action(self):
        a = 'wait' if self.rng.random() < .5 else self.rng.choice(self.model.actions)
        self.chosen.append(a)
        return a

    def step(self, o):
        self.told.append(o)


def case(rng, i, ck):
    import task_models.evaluation as ev
    from task_models.supportive import SupportivePOMDP, NHTMHorizon
    from task_models.lib.pomcp import NTransitionsHorizon
    if hasattr(ev, 'get_process_elapsed_time'):
        ev.get_process_elapsed_time = lambda *a: datetime.timedelta(seconds=1)
    task, _ = supportive_task(rng, depth=rng.randint(0, 2), pmax=2)
    m = SupportivePOMDP(task.root, discount=rng.choice([1., .9, .5, 0.]))
    hmax = rng.choice([0, 1, 2, 5, 30, 100])
    disc = rng.random() < .6
    ck.input(describe_supportive(task.root), 'discount', m.discount, disc, 'horizon', hmax)
    pol = Policy(m, rng)
    log = []
    real = m.sample_transition

    def rec(a, s, *x, **k):
        r = real(a, s, *x, **k)
        log.append((a, s) + tuple(r))
        return r
    m.sample_transition = rec
    for _ in range(2):
        del log[:]
        n0 = m.n_simulator_calls
        msgs = []
        lg = msgs.append if rng.random() < .5 else None
        e = ev.simulate_one_evaluation(m, pol, max_horizon=hmax, logger=lg, discount=disc)
        A, Z = m.actions, m.observations
        n = len(e['actions'])
        ck.eq((len(e['states']), len(e['observations']), len(e['rewards'])), (n + 1, n, n), 'lengths')
        ck.eq(len(log), n, 'one transition per action')
        for k in range(n):
            ck.eq((e['actions'][k], e['states'][k], e['states'][k + 1], e['observations'][k], e['rewards'][k]), log[k],
                  'transition %d' % k)
        ck.eq([A[a] for a in e['actions']], pol.chosen, 'actions chosen by the policy')
        ck.eq([Z[o] for o in e['observations']], pol.told, 'observations told to the policy')
        g = m.discount if disc else 1.
        ck.close(e['return'], sum(g ** k * r for k, r in enumerate(e['rewards'])), 'discounted return')
        fin = [bool(m.is_final(s)) for s in e['states']]
        ck.that(not any(fin[1:-1]), 'goes on until a final state')
        ck.that(n == hmax or (n > 0 and fin[-1]), 'stops at a final state or after the maximum', n)
        ck.that(n <= max(hmax, 0), 'at most the maximum number of transitions', n)
        ck.eq(e['simulator-calls'], m.n_simulator_calls - n0, 'simulator calls')
    # horizons
    for _ in range(3):
        n = rng.randint(0, 4)
        kind = rng.choice(['n', 'fin', 'htm'])
        if kind == 'n':
            h = NTransitionsHorizon(n) if rng.random() < .5 else NTransitionsHorizon.generator(m, n=n)()
        elif kind == 'fin':
            h = ev.FinishedOrNTransitionsHorizon(m, n) if rng.random() < .5 else \
                ev.FinishedOrNTransitionsHorizon.generator(m, n=n)()
        else:
            h = NHTMHorizon(m, n) if rng.random() < .5 else NHTMHorizon.generator(m, n=n)()
        group = [(h, n, False)]
        ops = []
        for _ in range(8):
            k = rng.randrange(len(group))
            h, left, fin = group[k]
            if rng.random() < .35:
                ops.append(('copy', k))
                group.append((h.copy(), left, fin))
            else:
                s, s2 = rng.randrange(m.n_states), rng.randrange(m.n_states)
                if rng.random() < .5:
                    st = m._int_to_state(s)
                    st.htm = m._int_to_state(s2).htm
                    s = st.to_int()
                ops.append(('decrement', k, s, s2))
                h.decrement(rng.randrange(m.n_actions), s, s2, 0)
                f2 = bool(m.is_final(s2))
                if kind == 'n':
                    left -= 1
                elif kind == 'fin':
                    left -= 1
                    fin = f2
                else:
                    if m._int_to_state(s).htm != m._int_to_state(s2).htm:
                        left -= 1
                    if f2:
                        left = 0
                group[k] = (h, left, fin)
            ck.desc = '%s horizon of %d, operations %r, task %s' % (kind, n, ops, describe_supportive(task.root))
            for h, left, fin in group:
                ck.eq(bool(h.is_reached()), left <= 0 or fin, 'horizon reached')
