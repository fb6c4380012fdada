from tg import make, key, walk, fresh

N = (800, 12000)
RULE = 'task graphs made of random paths, deterministic or not; the conjugate computed independently'


def case(rng, i, ck):
    from task_models.task import TaskGraph, ConjugateTaskGraph
    S, A, ok = make(rng, rng.randint(1, 5), rng.randint(1, 4))
    g = TaskGraph()
    det = {} if rng.random() < .7 else None
    trans, init, term = set(), set(), set()
    for _ in range(rng.randint(0, 4)):
        p = walk(rng, S, A, ok, rng.randint(0, 5), det)
        g.add_path(fresh(rng, p))
        init.add(key(p[0]))
        term.add(key(p[-1]))
        trans |= {tuple(key(x) for x in p[k:k + 3]) for k in range(0, len(p) - 2, 2)}
    ck.input('transitions', sorted(trans), 'initial', sorted(init), 'terminal', sorted(term))
    snap = lambda: (sorted((key(s), key(a), key(t)) for s, a, t in g.all_transitions()), sorted(map(key, g.initial)),
                    sorted(map(key, g.terminal)))
    before = snap()
    nondet = any(s == s2 and a == a2 and t != t2 for s, a, t in trans for s2, a2, t2 in trans)
    if nondet:
        ck.raises(ValueError, g.conjugate, 'non-deterministic graph is refused')
    else:
        c = g.conjugate()
        want = set()
        for s, a, t in trans:
            if s in init:
                want.add(('i', s, a))
            if t in term:
                want.add((a, t, 't'))
            else:
                want |= {(a, t, a2) for s2, a2, _ in trans if s2 == t}

        def k(x):
            return 'i' if x is c.initial else 't' if x is c.terminal else key(x)
        got = [(k(s), key(l), k(d)) for s, l, d in c.all_transitions()]
        ck.eq(len(set(got)), len(got), 'each transition once')
        ck.eq(sorted(map(str, got)), sorted(map(str, want)), 'transitions of the conjugate')
        ck.that(isinstance(c, ConjugateTaskGraph), 'a conjugate graph')
    ck.eq(snap(), before, 'task graph unchanged')
