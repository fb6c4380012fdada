from gen import supportive_task, describe_supportive

N = (600, 10000)
RULE = 'random supportive tasks with up to 4 objects, conditions of every kind'


def case(rng, i, ck):
    from task_models.supportive import SupportivePOMDP, CONSUMES, USES, CONSUMES_SOME
    task, objs = supportive_task(rng, pmax=2)
    ck.input(describe_supportive(task.root))
    m = SupportivePOMDP(task.root)
    named, keep = set(), set()
    for n in m.htm_nodes:
        for c, o in n.action.conditions:
            named.add(o)
            if c in (USES, CONSUMES_SOME):
                keep.add(o)
    ck.eq(sorted(m.objects), sorted(named), 'objects')
    ck.eq(len(m.clearable), len(m.objects), 'clearable list')
    for o, c in zip(m.objects, m.clearable):
        ck.eq(bool(c), o in keep, 'clearable ' + o)
    acts = m.actions
    ck.eq(m.n_actions, len(acts), 'number of actions')
    ck.eq(acts[:4], ['wait', 'hold H', 'hold V', 'ask hold'], 'first actions')
    ck.eq(len(set(acts)), len(acts), 'distinct actions')
    for k, o in enumerate(m.objects):
        a = m._bring(k)
        ck.eq(acts[a], 'bring ' + o, 'bring index of ' + o)
        ck.eq(m._obj_from_action(a), k, 'object of bring action')
        ck.that(m._is_bring(a), 'is bring')
        if m.clearable[k]:
            a = m._clear(k)
            ck.eq(acts[a], 'clear ' + o, 'clear index of ' + o)
            ck.eq(m._obj_from_action(a), k, 'object of clear action')
            ck.that(not m._is_bring(a), 'clear is not bring')
        else:
            ck.raises(ValueError, lambda: m._clear(k), 'not clearable')
    for a in range(4):
        ck.raises(ValueError, lambda: m._obj_from_action(a), 'not an object action')
    ck.eq(len(acts), 4 + len(m.objects) + sum(1 for c in m.clearable if c), 'action count')
    for n, cs in zip(m.htm_nodes, m.htm_conditions):
        ck.eq([(c, m.objects[o]) for c, o in cs], [tuple(x) for x in n.action.conditions], 'conditions of a step')
    ck.eq(m.n_states, (len(m.htm_nodes) + 2) * 2 ** (2 + len(m.objects)), 'number of states')
