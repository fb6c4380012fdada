from itertools import permutations
from gen import tree, describe

N = (700, 10000)
RULE = 'random trees holding several kinds of actions with every attribute set; parallel nodes of up to 4 children'

SKIP = ('name',)


def actions(rng):
    from task_models.task import AbstractAction
    from task_models import task_to_pomdp, bring_next_to_pomdp, supportive
    cnt = [0]

    def leaf():
        cnt[0] += 1
        n = 'Act %d' % cnt[0]
        k = rng.randrange(4)
        if k == 0:
            a = AbstractAction(n)
            a.agent = rng.choice(['human', 'robot'])
        elif k == 1:
            a = task_to_pomdp.CollaborativeAction(n, (rng.random(), rng.random(), rng.random()),
                                                  human_probability=rng.random(), fail_probability=rng.random(),
                                                  no_probability=rng.random())
        elif k == 2:
            a = bring_next_to_pomdp.CollaborativeAction(n, 'obj%d' % cnt[0])
        else:
            a = supportive.SupportedAction(n)
            a.hold = rng.choice([None, 'h', 'v'])
            a.conditions = [(rng.randrange(3), 'o%d' % j) for j in range(rng.randint(0, 3))]
        return a
    return leaf


def same(ck, a, b, fmt, what):
    """b is the copy of a whose names are formatted by fmt."""
    ck.that(type(a) is type(b), what + ': kind of node', type(a), type(b))
    ck.eq(b.kind, a.kind, what + ': combination')
    ck.eq(b.name, fmt.format(a.name), what + ': name')
    ck.that(a is not b, what + ': is a copy')
    ck.eq(b.highlighted, a.highlighted, what + ': highlighted')
    if a.kind is None:
        x, y = a.action, b.action
        ck.that(x is not y, what + ': action is copied')
        ck.that(type(x) is type(y), what + ': class of the action', type(x), type(y))
        ck.eq(y.name, fmt.format(x.name), what + ': action name')
        for k in ('durations', 'h_proba', 'no_proba', 'fail_proba', 'obj', 'conditions', 'hold', 'agent'):
            ck.eq(hasattr(y, k), hasattr(x, k), what + ': has ' + k)
            if hasattr(x, k) and not (k == 'agent' and type(x).__module__.endswith('task_to_pomdp')):
                ck.eq(getattr(y, k), getattr(x, k), what + ': ' + k)
    else:
        ck.eq(len(b.children), len(a.children), what + ': children')
        if a.kind == 'Alternative':
            ck.eq([float(p) for p in b.proba], [float(p) for p in a.proba], what + ': probabilities')
        for j, (c, d) in enumerate(zip(a.children, b.children)):
            same(ck, c, d, fmt, '%s/%d' % (what, j))


def snap(n):
    if n.kind is None:
        return (id(n), id(n.action), n.name, sorted((k, repr(v)) for k, v in vars(n.action).items()))
    return (id(n), n.name, n.kind, repr(n.proba), [snap(c) for c in n.children])


def case(rng, i, ck):
    from task_models.task import ParallelCombination, AlternativeCombination, SequentialCombination
    leaf = actions(rng)
    t = tree(rng, rng.randint(0, 3), leaf, probs=True)
    ck.input(describe(t))
    before = snap(t)
    if rng.random() < .7:
        fmt = rng.choice(['{} copy', 'x-{}', '{}'])
        c = t.deep_copy(rename_format=fmt) if rng.random() < .7 else t.deep_copy(fmt)
        same(ck, t, c, fmt, 'copy')
    else:
        same(ck, t, t.deep_copy(), '{}', 'copy')
    ck.eq(snap(t), before, 'original unchanged')
    n = rng.choice([1, 2, 2, 3, 3, 4])
    p = ParallelCombination([tree(rng, rng.randint(0, 2 if n < 3 else 1), leaf, top=False, probs=True)
                             for _ in range(n)], name='par', highlighted=rng.random() < .3)
    ck.input(describe(t), 'expanding', describe(p))
    before = snap(p)
    a = p.to_alternative()
    ck.eq(snap(p), before, 'parallel node unchanged')
    ck.that(isinstance(a, AlternativeCombination), 'an alternative')
    ck.eq(a.name, p.name, 'name')
    ck.eq(a.highlighted, p.highlighted, 'highlighted')
    orders = list(permutations(range(n)))
    ck.eq(len(a.children), len(orders), 'one sequence per order')
    ck.close(list(a.proba), [1. / len(orders)] * len(orders), 'uniform probabilities')
    found = []
    seen = set()
    for k, s in enumerate(a.children):
        ck.that(isinstance(s, SequentialCombination), 'a sequence')
        ck.eq(len(s.children), n, 'each child once')
        fmt = '{} order-%d' % k
        ck.eq(s.name, fmt.format(p.name), 'name of the sequence')
        # the order of this sequence, from the names of the copies and their shape
        order = None
        for o in orders:
            try:
                for j, c in zip(o, s.children):
                    same(ck, p.children[j], c, fmt, 'child')
                order = o
                if order not in found:
                    break
            except Exception:
                continue
        ck.that(order is not None, 'a permutation of the children', k, describe(s))
        found.append(order)
        for c in s.children:
            ck.that(id(c) not in seen, 'copies are not shared')
            seen.add(id(c))
    ck.eq(sorted(found), sorted(orders), 'every order once')
    # probabilities
    ch = [tree(rng, 0, leaf) for _ in range(rng.randint(1, 4))]
    w = [rng.randint(0, 5) for _ in ch]
    if sum(w) == 0:
        w[0] = 1
    pr = [x / float(sum(w)) for x in w]
    ck.eq(list(AlternativeCombination(ch, probabilities=list(pr)).proba), pr, 'given probabilities')
    ck.close(list(AlternativeCombination(ch).proba), [1. / len(ch)] * len(ch), 'default probabilities')
    bad = list(pr)
    bad[rng.randrange(len(bad))] += rng.choice([.5, -.5, 1.5])
    ck.raises(ValueError, lambda: AlternativeCombination(ch, probabilities=bad), 'invalid probabilities')
