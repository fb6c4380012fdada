"""States, actions and paths for the task-graph properties."""
import numpy as np


def make(rng, ns, na, det=False):
    """(states, actions, allowed triples); an action checks a transition by table."""
    from task_models.state import NDimensionalState
    from task_models.action import Action
    states = [NDimensionalState(np.array([k, 0])) for k in range(ns)]
    allowed = set()
    for a in range(na):
        for s in range(ns):
            for t in range(ns):
                if rng.random() < .6:
                    allowed.add((s, a, t))

    class A(Action):
        def __init__(self, k):
            super(A, self).__init__('a%d' % k)
            self.k = k

        def __hash__(self):
            return hash(self.k)

        def __eq__(self, other):
            return isinstance(other, A) and self.k == other.k

        def check(self, before, after):
            return (int(before.features[0]), self.k, int(after.features[0])) in allowed
    return states, [A(k) for k in range(na)], allowed


def key(x):
    return int(x.features[0]) if hasattr(x, 'features') else x.k


def walk(rng, states, actions, allowed, n, det=None):
    """A valid path of at most n transitions (as objects)."""
    s = rng.randrange(len(states))
    p = [states[s]]
    for _ in range(n):
        ts = sorted((a, t) for (x, a, t) in allowed if x == s)
        if det is not None:
            ts = [(a, t) for a, t in ts if det.get((s, a), t) == t]
        if not ts:
            break
        a, t = rng.choice(ts)
        if det is not None:
            det[(s, a)] = t
        p += [actions[a], states[t]]
        s = t
    return p


def fresh(rng, p):
    """Same path made of equal but distinct states."""
    from task_models.state import NDimensionalState
    return [NDimensionalState(x.features.copy()) if hasattr(x, 'features') and rng.random() < .5 else x for x in p]
