PROPERTY = 'C12'
FILE = 'task_models/task.py'
OLD = "            if c.idx > curr_idx and c.kind == None and c.action.agent == \"human\":\n                next_act = c\n                return next_act\n            else:\n"
NEW = "            if c.kind is None:\n                if c.idx > curr_idx and c.action.agent == \"human\":\n                    return c\n            elif not c.children or c.children[-1].kind is not None or c.children[-1].idx > curr_idx:\n"
NEEDS = 'a combination whose last child is a step with a small number, after other steps'
BREAKS = 'human actions before a step with a small number are not found'
DEMO = r'''
from task_models.json_to_htm import build_htm
from task_models.task import HierarchicalTask
leaf = lambda i, p: dict(name='l%d' % i, id=i, parent=p, combination=None, attributes=['human'])
comb = lambda i, p, *c: dict(name='c%d' % i, id=i, parent=p, combination='Sequential', attributes=[], children=list(c))
for ids in ([0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0]):
    a, b, c, d, e, f = ids
    t = build_htm(comb(a, None, comb(b, a, leaf(c, b), leaf(d, b)), comb(e, a, leaf(f, e))))
    h = HierarchicalTask(t)
    for x in range(-1, 7):
        n = h.find_next_human_action(t, x)
        want = [y for y in (c, d, f) if y > x]
        assert (n and n.idx) == (want[0] if want else None), (ids, x, n)
'''
