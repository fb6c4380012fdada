import json
from gen import tree, describe

N = (700, 10000)
RULE = 'random trees and descriptions, arbitrary numbers, agents, highlighted nodes'


def descr(rng, depth, nid, parent, top=True):
    """Random description of a task, as in the JSON files."""
    i = nid[0]
    nid[0] += rng.choice([1, 1, 2]) if nid[1] else 1
    hl = ['highlighted'] if rng.random() < .15 else []
    if depth == 0 or (not top and rng.random() < .4):
        at = hl + [rng.choice(['human', 'robot'])]
        rng.shuffle(at)
        return {'name': 'Leaf %d' % i, 'id': i, 'parent': parent, 'combination': None, 'attributes': at}
    d = {'name': rng.choice(['n%d', 'Node %d', 'é%d']) % i, 'id': i, 'parent': parent,
         'combination': rng.choice(['Sequential', 'Parallel', 'Alternative']), 'attributes': hl}
    d['children'] = [descr(rng, depth - 1, nid, i, False) for _ in range(rng.randint(1, 3))]
    return d


def nodes(d):
    return [d] + [x for c in d.get('children', []) for x in nodes(c)]


def built(ck, d, n, what):
    ck.eq(n.kind, d['combination'], what + ': kind')
    ck.eq(n.name, d['name'], what + ': name')
    ck.eq(n.idx, d['id'], what + ': number')
    ck.eq(n.parent, d['parent'], what + ': parent')
    if d['combination'] is None:
        ck.eq(n.action.name, d['name'], what + ': action')
        ck.eq(n.action.agent, [a for a in d['attributes'] if a != 'highlighted'][0], what + ': agent')
    else:
        ck.eq(len(n.children), len(d['children']), what + ': children')
        for c, m in zip(d['children'], n.children):
            built(ck, c, m, what + '/' + c['name'])


def export(ck, n, d, ids, parent):
    ck.eq(d['id'], ids[0], 'consecutive numbers in depth-first order')
    ids[0] += 1
    ck.eq(d['parent'], parent, 'number of the parent')
    ck.eq(d['name'], n.name, 'name')
    ck.eq(d['combination'], n.kind, 'kind')
    ck.eq(d['attributes'], ['highlighted'] if n.highlighted else [], 'attributes')
    if n.kind is None:
        ck.that('children' not in d, 'leaf')
    else:
        ck.eq(len(d['children']), len(n.children), 'children')
        for c, e in zip(n.children, d['children']):
            export(ck, c, e, ids, d['id'])


def case(rng, i, ck):
    from task_models.task import AbstractAction, HierarchicalTask
    from task_models.json_to_htm import build_htm, json_to_htm
    cnt = [0]

    def leaf():
        cnt[0] += 1
        return AbstractAction('x%d' % cnt[0])
    t = HierarchicalTask(root=tree(rng, rng.randint(0, 4), leaf))
    ck.input('export of', describe(t.root))
    d = t.as_dictionary() if rng.random() < .5 else t.as_dictionary(name='my task')
    ck.that(d['name'] in ('my task', 'Hierarchical task tree'), 'name')
    ids = [0]
    export(ck, t.root, d['nodes'], ids, None)
    allids = [x['id'] for x in nodes(d['nodes'])]
    ck.eq(sorted(allids), list(range(len(allids))), 'unique numbers')
    ck.eq(HierarchicalTask().as_dictionary()['nodes'], None, 'empty task')
    d = descr(rng, rng.randint(0, 3), [rng.choice([0, 0, 5]), rng.random() < .5], None)
    ck.input('import of', json.dumps(d))
    n = build_htm(d)
    built(ck, d, n, 'root')
    with open('task.json', 'w') as f:
        json.dump({'name': 'x', 'nodes': d}, f)
    h = json_to_htm('task.json')
    built(ck, d, h.root, 'file root')
    # lookups, also with numbers in any order
    ds = nodes(d)
    if rng.random() < .4:
        new = rng.sample(range(60), len(ds)) if len(ds) <= 60 else None
        if new:
            m = dict(zip([x['id'] for x in ds], new))
            for x in ds:
                x['id'] = m[x['id']]
                x['parent'] = m.get(x['parent'])
            n = build_htm(d)
            ck.input('lookups in', json.dumps(d))
    numbers = [x['id'] for x in ds]
    for k in numbers + [-1, 1000]:
        p = h.find_parent_node(n, k)
        has = [x for x in ds if any(c['id'] == k for c in x.get('children', []))]
        if has:
            ck.that(p is not None and any(c.idx == k for c in p.children), 'parent of %d' % k, p)
        else:
            ck.that(p is None, 'no parent of %d' % k, p)
    for k in numbers + [-1, 1000]:
        a = h.find_next_human_action(n, k)
        want = [x for x in ds[1:] if x['combination'] is None and 'human' in x['attributes'] and x['id'] > k]
        if want:
            ck.that(a is not None, 'next human action after %d' % k)
            ck.eq(a.idx, want[0]['id'], 'next human action after %d' % k)
        else:
            ck.that(a is None, 'no human action after %d' % k)
