N = (60, 400)
RULE = 'every height and number of towers up to 6x6 and some larger'


def case(rng, i, ck):
    from task_models.tower_problem import TowerProblem
    h, n = (i % 6 + 1, i // 6 % 6 + 1) if i < 36 else (rng.randint(0, 25), rng.randint(0, 25))
    ck.input('height', h, 'towers', n)
    t = TowerProblem(height=h, n_towers=n) if (h, n) != (2, 3) or rng.random() < .5 else TowerProblem()
    ck.eq(t.n_parts, h * n, 'number of parts')
    ck.eq(list(t.parts), [str(k) for k in range(h * n)], 'parts')
    v, z = list(t.v_first()), list(t.h_first())
    ck.eq(sorted(v), list(range(h * n)), 'vertical order is a permutation')
    ck.eq(sorted(z), list(range(h * n)), 'horizontal order is a permutation')
    ck.eq(v, [i_ * h + l for i_ in range(n) for l in range(h)], 'vertical order')
    ck.eq(z, [i_ * h + l for l in range(h) for i_ in range(n)], 'horizontal order')
    if h * n == 0:
        return
    for what, task, orders, names in (('both', t.vertical_horizontal_task(), [v, z], ['vertical', 'horizontal']),
                                      ('given', t.task_from_orders([z, v, v]), [z, v, v], ['0', '1', '2'])):
        ck.eq(task.root.kind, 'Alternative', 'alternative')
        ck.eq(len(task.root.children), len(orders), 'one sequence per order')
        for s, o, nm in zip(task.root.children, orders, names):
            ck.eq(s.kind, 'Sequential', 'sequence')
            ck.eq(s.name, nm, 'name')
            ck.eq([c.action.obj for c in s.children], [str(k) for k in o], 'parts fetched in the order')
            ck.that(len(set(c.action.name for c in s.children)) == len(o), 'distinct step names')
