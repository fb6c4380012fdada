"""Input generators shared by the property modules."""
import numpy as np


def rows(rng, shape, zeros=.3):
    """Random array whose last dimension sums to one, with exact zeros."""
    n = shape[-1]
    m = int(np.prod(shape[:-1])) if len(shape) > 1 else 1
    out = np.zeros((m, n))
    for i in range(m):
        w = np.array([0. if rng.random() < zeros else rng.randint(1, 8) for _ in range(n)])
        if w.sum() == 0:
            w[rng.randrange(n)] = 1.
        out[i] = w / w.sum()
    return out.reshape(shape)


POOL = ['', '10', '2', '-x', '_b', 'B', 'A', 'z', 'none', '0', '9', '1', 'Zz', 'a', 'y-0']


def pomdp_args(rng, ns=None, na=None, no=None, names=True):
    ns = ns or (rng.randint(1, 4) if rng.random() < .97 else rng.randint(11, 12))
    na = na or (rng.randint(1, 3) if rng.random() < .97 else rng.randint(11, 12))
    no = no or rng.randint(1, 3)
    T = rows(rng, (na, ns, ns))
    O = rows(rng, (na, ns, no))
    R = np.array([rng.randint(-9, 9) / 2. for _ in range(na * ns * ns * no)]).reshape((na, ns, ns, no))
    start = rows(rng, (ns,))
    kw = {}
    if names and rng.random() < .7:
        kw = {'states': ['s%d' % i for i in range(ns)],
              'actions': ['a%d' % i for i in range(na)],
              'observations': ['o%d' % i for i in range(no)]}
        if rng.random() < .5:     # names in no particular order
            for k, n in (('states', ns), ('actions', na), ('observations', no)):
                if rng.random() < .8:
                    kw[k] = rng.sample(['%s%s' % (k[0], x) for x in POOL], n)
    return T, O, R, start, kw


def pomdp(rng, **k):
    from task_models.lib.pomdp import POMDP
    T, O, R, start, kw = pomdp_args(rng, **k)
    return POMDP(T, O, R, start, rng.choice([0., .5, .9, 1.]), **kw)


def belief(rng, n, zeros=.3):
    return rows(rng, (n,), zeros)


# -- hierarchical tasks ---------------------------------------------------------------------
def tree(rng, depth, leaf, kinds='SAP', top=True, width=3, probs=False, pmax=2):
    """Random task tree; leaf() builds the action of a new leaf."""
    from task_models.task import (LeafCombination, SequentialCombination,
                                  AlternativeCombination, ParallelCombination)
    if depth == 0 or (not top and rng.random() < .4):
        return LeafCombination(leaf(), highlighted=rng.random() < .1)
    k = rng.choice(kinds)
    n = rng.randint(1, width)
    if k == 'P':
        n = min(n, pmax)
    ch = [tree(rng, depth - 1, leaf, kinds, False, width, probs, pmax) for _ in range(n)]
    kw = {}
    if k == 'A' and probs and rng.random() < .6:
        w = [rng.randint(1, 5) for _ in ch]
        kw['probabilities'] = [x / float(sum(w)) for x in w]
    cls = {'S': SequentialCombination, 'A': AlternativeCombination, 'P': ParallelCombination}[k]
    return cls(ch, name='n%d' % rng.randrange(1000), highlighted=rng.random() < .1, **kw)


def describe(node):
    from task_models.task import LeafCombination
    if isinstance(node, LeafCombination):
        return node.action.name
    p = '' if node.kind != 'Alternative' else str([round(float(x), 3) for x in node.proba])
    return '%s%s(%s)' % (node.kind[0], p, ', '.join(describe(c) for c in node.children))


def leaves(node):
    from task_models.task import LeafCombination
    if isinstance(node, LeafCombination):
        return [node]
    return [l for c in node.children for l in leaves(c)]


def supportive_task(rng, depth=None, pmax=3):
    from task_models.task import HierarchicalTask
    from task_models.supportive import SupportedAction, CONSUMES, USES, CONSUMES_SOME
    objs = ['screws', 'leg', 'top', 'joints'][:rng.randint(1, 4)]
    cnt = [0]

    def leaf():
        a = SupportedAction('act%d' % cnt[0])
        cnt[0] += 1
        a.hold = rng.choice([None, 'h', 'v'])
        a.conditions = [(rng.choice([CONSUMES, USES, CONSUMES_SOME]), rng.choice(objs))
                        for _ in range(rng.choice([0, 1, 2, 3]))]
        return a
    t = tree(rng, rng.randint(0, 3) if depth is None else depth, leaf, pmax=pmax)
    return HierarchicalTask(root=t), objs


def describe_supportive(node):
    return describe(node) + ' ' + '; '.join('%s %r %r' % (l.action.name, l.action.hold, l.action.conditions)
                                             for l in leaves(node))


def layout(node):
    """Steps of the expanded task in order: [(leaf action, own index, following steps)], initial steps.

    A following step is an index in the list, or 'end'."""
    from itertools import permutations
    from task_models.task import LeafCombination
    steps = []

    def rec(n):
        """-> (first steps, last steps)"""
        if isinstance(n, LeafCombination):
            steps.append([n.action, len(steps), None])
            return [len(steps) - 1], [len(steps) - 1]
        if n.kind == 'Sequential':
            return seq(n.children)
        parts = [seq(p) for p in permutations(n.children)] if n.kind == 'Parallel' else \
            [rec(c) for c in n.children]
        return sum([f for f, _ in parts], []), sum([l for _, l in parts], [])

    def seq(cs):
        parts = [rec(c) for c in cs]
        for (_, l0), (f1, _) in zip(parts[:-1], parts[1:]):
            for x in l0:
                steps[x][2] = f1
        return parts[0][0], parts[-1][1]
    first, last = rec(node)
    for x in last:
        steps[x][2] = ['end']
    return steps, first


def comm_task(rng, depth=None):
    from task_models.task_to_pomdp import CollaborativeAction
    from task_models.task import HierarchicalTask
    cnt = [0]

    def leaf():
        cnt[0] += 1
        kw = {}
        if rng.random() < .7:
            kw = {'fail_probability': rng.choice([0., .1, .5, 1.]), 'no_probability': rng.choice([0., .2, 1.])}
        if rng.random() < .3:
            kw['human_probability'] = .3
        return CollaborativeAction(rng.choice(['Act %d', 'act%d', 'A B %d']) % cnt[0],
                                   tuple(rng.choice([.01, 1., 2.5, 5., 20., 100.]) for _ in range(3)), **kw)
    return HierarchicalTask(root=tree(rng, rng.randint(0, 3) if depth is None else depth, leaf,
                                      probs=True, pmax=2))


def comm_model(rng, ck):
    """(builder, arguments, task, model) of a random communication problem, or None when too big."""
    from task_models.task_to_pomdp import HTMToPOMDP
    task = comm_task(rng)
    steps, first = layout(task.root)
    if len(steps) > 14:
        ck.skip = True
        return None
    opts = {k: True for k in ('deterministic', 'structured', 'loop', 'reward_state') if rng.random() < .4}
    if rng.random() < .4:
        opts['subtask_reward'] = float(rng.choice([0, 1, 4]))
    if rng.random() < .8:
        opts['intr_cost'] = float(rng.choice([0, 1, 3, -2]))
    if rng.random() < .5:
        opts['end_reward'] = float(rng.choice([0, 7, 50]))
    ts = [rng.choice([0.5, 1., 2., 4.]) for _ in range(3)]
    ck.input(describe(task.root), [(s[0].name, s[0].durations, s[0].fail_proba, s[0].no_proba)
                                   for s in steps], ts, opts)
    b = HTMToPOMDP(*ts, **opts)
    return b, ts, opts, task, steps, first, b.task_to_pomdp(task)
