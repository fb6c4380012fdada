from tg import make, key, walk, fresh

N = (800, 12000)
RULE = 'random transition tables, valid and broken paths, sequences of additions'


def valid(path, allowed):
    if not path:
        return True
    if len(path) % 2 == 0:
        return False
    for k, x in enumerate(path):
        if hasattr(x, 'features') != (k % 2 == 0) or (k % 2 == 1 and not hasattr(x, 'check')):
            return False
    return all((key(path[k]), key(path[k + 1]), key(path[k + 2])) in allowed for k in range(0, len(path) - 2, 2))


def case(rng, i, ck):
    from task_models.task import TaskGraph, check_path
    S, A, ok = make(rng, rng.randint(1, 4), rng.randint(1, 3))
    g = TaskGraph()
    trans, init, term = set(), set(), set()
    added = []

    def path():
        p = walk(rng, S, A, ok, rng.randint(0, 5))
        if rng.random() < .15:
            return []
        if rng.random() < .5:
            p = list(p)
            k = rng.randrange(5)
            if k == 0:
                p = p[:rng.randrange(len(p) + 1)]
            elif k == 1:
                p = p[rng.randrange(len(p)):]
            elif k == 2:
                p.insert(rng.randrange(len(p) + 1), rng.choice(S + A))
            elif k == 3:
                p[rng.randrange(len(p))] = rng.choice(S + A + ['x', None])
            else:
                j = rng.randrange(0, len(p), 2)
                p[j] = rng.choice(S)
        return fresh(rng, p)

    def show(p):
        return [x if not hasattr(x, 'check') and not hasattr(x, 'features') else
                ('a' if hasattr(x, 'check') else 's') + str(key(x)) for x in p]
    ops = []
    for _ in range(8):
        p = path()
        ops.append(show(p))
        ck.input('allowed', sorted(ok), 'paths', ops)
        v = valid(p, ok)
        ck.eq(bool(check_path(p)), v, 'validity of the path')
        if v:
            g.add_path(p)
            if p:
                init.add(key(p[0]))
                term.add(key(p[-1]))
            trans |= {tuple(key(x) for x in p[k:k + 3]) for k in range(0, len(p) - 2, 2)}
            added.append(p)
        else:
            ck.raises(ValueError, lambda: g.add_path(p), 'invalid path is refused')
            ck.raises(ValueError, lambda: g.has_path(p), 'invalid path is refused by has_path')
        ck.eq(sorted((key(s), key(a), key(t)) for s, a, t in g.all_transitions()), sorted(trans), 'transitions')
        ck.eq({key(x) for x in g.initial}, init, 'initial states')
        ck.eq({key(x) for x in g.terminal}, term, 'terminal states')
        for q in added:
            ck.that(g.has_path(q), 'added path is accepted', show(q))
        q = path()
        if valid(q, ok):
            want = not q or (key(q[0]) in init and key(q[-1]) in term and
                             all(tuple(key(x) for x in q[k:k + 3]) in trans for k in range(0, len(q) - 2, 2)))
            ck.eq(bool(g.has_path(q)), want, 'acceptance of %r' % show(q))
