import numpy as np

N = (600, 10000)
RULE = 'random masks, values and states of several numeric types; boards with random parts; all pairs of objects compared'


def case(rng, i, ck):
    from task_models.state import NDimensionalState
    from task_models.action import Condition, MatchAllCondition, PrePostConditionAction, Action
    from task_models.snap_circuit import (SnapCircuitPart, SnapCircuitState, PlaceAction, PartPresenceCondition)
    from task_models.task import AbstractAction, MetaAction
    n = rng.randint(1, 4)
    objs = []
    dts = [int, float, np.int32]
    conds = []
    for _ in range(4):
        mask = np.array([rng.randrange(2) for _ in range(n)], dtype=rng.choice(dts))
        value = np.array([rng.choice([0, 0, 1, 2, -1]) for _ in range(n)], dtype=rng.choice(dts))
        if rng.random() < .7:
            value = value * (mask != 0)
        ck.input('mask', mask.tolist(), 'value', value.tolist(), mask.dtype.name, value.dtype.name)
        bad = any(not m and v for m, v in zip(mask, value))
        if bad:
            ck.raises(ValueError, lambda: Condition(mask, value), 'constrained masked feature')
            continue
        if rng.random() < .3:
            value = value * -1. * -1.
        if rng.random() < .2:
            value = -(value * 0.) + value
        c = Condition(mask, value)
        conds.append((c, mask, value))
        objs.append(c)
        for _ in range(4):
            f = np.array([rng.choice([0, 1, 2, -1]) for _ in range(n)], dtype=rng.choice(dts))
            if rng.random() < .5:
                f = np.where(mask != 0, value, f)
            s = NDimensionalState(f)
            objs.append(s)
            want = all(f[k] == value[k] for k in range(n) if mask[k])
            ck.eq(bool(c.check(s)), want, 'condition on %r' % f.tolist())
    objs.append(MatchAllCondition())
    objs.append(MatchAllCondition())
    ck.that(MatchAllCondition().check(NDimensionalState(np.zeros(n))), 'match all')
    if conds:
        for _ in range(3):
            p, q = rng.choice(conds), rng.choice(conds)
            act = PrePostConditionAction(p[0], q[0], name='x%d' % rng.randrange(3))
            objs.append(act)
            f1, f2 = [np.array([rng.choice([0, 1, 2]) for _ in range(n)]) for _ in range(2)]
            want = all(f1[k] == p[2][k] for k in range(n) if p[1][k]) and all(f2[k] == q[2][k] for k in range(n) if q[1][k])
            ck.eq(bool(act.check(NDimensionalState(f1), NDimensionalState(f2))), want, 'pre- and post-condition')
    board = (rng.randint(1, 3), rng.randint(1, 3))
    parts = [SnapCircuitPart(rng.randrange(3), rng.choice(['R', 'C'])) for _ in range(3)]
    objs += parts

    def state(ps):
        return SnapCircuitState(board if rng.random() < .8 else (board[1], board[0] + 1), ps)
    loc = lambda: (rng.randrange(board[0]), rng.randrange(board[1]), rng.randrange(4))
    acts = []
    for _ in range(3):
        part, l = rng.choice(parts), loc()
        act = PlaceAction(board, part, l)
        acts.append(act)
        objs.append(act)
        objs += [act.pre, act.post]
        for _ in range(4):
            sets = []
            for _ in range(2):
                ps = [(loc(), rng.choice(parts)) for _ in range(rng.randint(0, 3))]
                if rng.random() < .6:
                    ps.append((l, part))
                sets.append(ps)
            b, a = [SnapCircuitState(board, ps) for ps in sets]
            objs += [b, a]
            there = [any(q[0] == l and q[1].id == part.id for q in ps) for ps in sets]
            ck.input('board', board, 'part', part.id, l, 'before', [(q[0], q[1].id) for q in sets[0]], 'after',
                     [(q[0], q[1].id) for q in sets[1]])
            ck.eq(bool(act.check(b, a)), not there[0] and there[1], 'placing action')
            ck.eq(bool(PartPresenceCondition(board, part, l).check(b)), there[0], 'presence condition')
            ck.eq(bool(PartPresenceCondition(board, part, l, is_there=False).check(b)), not there[0], 'absence condition')
            ps = list(sets[0])
            rng.shuffle(ps)
            twin = SnapCircuitState(board, [(q[0], SnapCircuitPart(q[1].id, q[1].label)) for q in ps])
            ck.that(twin == b and hash(twin) == hash(b), 'equal states')
    objs += [AbstractAction('x'), AbstractAction('x'), AbstractAction('initial'), Action('x')]
    base = [PrePostConditionAction(conds[0][0], conds[0][0], name=k) for k in 'ab'] if conds else []
    objs += [MetaAction('sequence', [AbstractAction('x'), AbstractAction('y')]),
             MetaAction('parallel', [AbstractAction('x'), AbstractAction('y')]),
             MetaAction('sequence', [AbstractAction('x'), AbstractAction('y')])] + [MetaAction('sequence', [x]) for x in base]
    others = [None, 3, 'x', (1,), np.zeros(n), object(), [1]]
    ck.input('comparing', [repr(x)[:60] for x in objs])
    for x in objs:
        hash(x)
        ck.that(x == x, 'equal to itself', x)
        for y in others:
            if not isinstance(y, np.ndarray):
                ck.that(not (x == y), 'different from other objects', x, y)
                x != y
        for y in objs:
            if x == y:
                ck.that(y == x, 'symmetric', x, y)
                ck.that(hash(x) == hash(y), 'equal objects have equal hashes', x, y)
                ck.that(not (x != y), 'equal')
