PROPERTY = 'C12'
FILE = 'task_models/task.py'
OLD = "        for c in node.children:\n            if idx == c.idx:\n"
NEW = "        for c in node.children:\n            if c.idx > idx:\n                break\n            if idx == c.idx:\n"
NEEDS = 'numbers that are not increasing in depth-first order (an imported description)'
BREAKS = 'the parent is not found'
DEMO = r'''
from task_models.json_to_htm import build_htm
from task_models.task import HierarchicalTask
leaf = lambda i, p: dict(name='l%d' % i, id=i, parent=p, combination=None, attributes=['human'])
comb = lambda i, p, *c: dict(name='c%d' % i, id=i, parent=p, combination='Sequential', attributes=[], children=list(c))
for ids in ([0, 1, 2, 3, 4, 5], [5, 4, 2, 3, 1, 0]):
    a, b, c, d, e, f = ids
    t = build_htm(comb(a, None, comb(b, a, leaf(c, b), leaf(d, b)), comb(e, a, leaf(f, e))))
    h = HierarchicalTask(t)
    for x, p in ((b, a), (c, b), (d, b), (e, a), (f, e)):
        n = h.find_parent_node(t, x)
        assert n is not None and n.idx == p, (ids, x, n)
    assert h.find_parent_node(t, a) is None
'''
