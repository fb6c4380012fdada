from itertools import permutations
from gen import tree, describe, leaves

N = (600, 10000)
RULE = 'random trees (depth up to 4) of sequences, alternatives, parallel nodes of up to 3 children'


def expand(node):
    """(leaf names in order, succ sets, initial set, final set) of the task, independently."""
    from task_models.task import LeafCombination
    names, succ = [], []

    def rec(n, pre):
        """n: node; pre: renaming suffix list"""
        if isinstance(n, LeafCombination):
            names.append(n.action.name + ''.join(pre))
            succ.append(set())
            i = len(names) - 1
            return {i}, {i}
        if n.kind == 'Parallel':
            first, last = set(), set()
            for i, p in enumerate(permutations(n.children)):
                f, l = seq(p, [' order-%d' % i] + pre)
                first |= f
                last |= l
            return first, last
        if n.kind == 'Sequential':
            return seq(n.children, pre)
        first, last = set(), set()
        for c in n.children:
            f, l = rec(c, pre)
            first |= f
            last |= l
        return first, last

    def seq(cs, pre):
        parts = [rec(c, pre) for c in cs]
        for (f0, l0), (f1, l1) in zip(parts[:-1], parts[1:]):
            for x in l0:
                succ[x] = succ[x] | f1
        return parts[0][0], parts[-1][1]
    f, l = rec(node, [])
    return names, succ, f, l


def case(rng, i, ck):
    from task_models.supportive import _HTMToDAG
    from task_models.task import AbstractAction
    cnt = [0]

    def leaf():
        cnt[0] += 1
        return AbstractAction('x%d' % cnt[0])
    t = tree(rng, rng.randint(0, 4 if i % 3 else 2), leaf, pmax=3 if i % 3 == 0 else 2,
             width=3 if i % 2 else 2)
    ck.input(describe(t))
    names, succ, first, last = expand(t)
    if len(names) > 400:
        ck.skip = True
        return
    before = describe(t)
    d = _HTMToDAG(t)
    # nested renaming is only compared up to the leaf name
    ck.eq([n.name.split(' ')[0] for n in d.nodes], [n.split(' ')[0] for n in names], 'steps in depth-first order')
    ck.eq(len(set(id(n) for n in d.nodes)), len(d.nodes), 'each step once')
    ck.eq(len(d.succs), len(names), 'one successor list per step')
    for k in range(len(names)):
        ck.eq(sorted(d.succs[k]), sorted(succ[k]), 'successors of step %d' % k)
    ck.eq(sorted(d.init), sorted(first), 'initial steps')
    for k in last:
        ck.eq(list(d.succs[k]), [], 'final step %d has no successor' % k)
    ck.eq(describe(t), before, 'task unchanged')
