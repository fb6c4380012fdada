import re
import os
import numpy as np
from gen import pomdp_args

N = (400, 8000)
RULE = 'random models whose entries do not round exactly; the whole text is parsed back'
NUM = re.compile(r'^-?\d+\.\d{5}$')


def row(ck, line, a, what):
    toks = line.split(' ')
    ck.eq(len(toks), len(a), 'entries of ' + what)
    for t in toks:
        ck.that(NUM.match(t), 'five decimals in ' + what, t)
    got = [float(t) for t in toks]
    r = np.around(np.asarray(a, dtype=float), 5)
    tot = np.around(np.asarray(a, dtype=float).sum(), 5)
    ck.that(abs(sum(got) - tot) < 2e-9, 'row sum of ' + what, got, tot)
    diff = [j for j in range(len(got)) if abs(got[j] - r[j]) > 2e-9]
    ck.that(len(diff) <= 1 and all(r[j] == r.max() for j in diff), 'rounded entries of ' + what, got, r.tolist())


def case(rng, i, ck):
    from task_models.lib.pomdp import POMDP
    T, O, R, start, kw = pomdp_args(rng)
    if rng.random() < .8:
        for x in (T, O, start):
            x += np.where(x > 0, np.array([rng.random() for _ in range(x.size)]).reshape(x.shape), 0)
            x /= x.sum(-1)[..., None] if x.ndim > 1 else x.sum()
    if rng.random() < .7:
        R = R * rng.choice([1e-5, 1. / 3, 1000. / 7]) + rng.random()
    mode = rng.choice(['reward', 'cost'])
    disc = rng.choice([0.9, 1., .125, 1, 0, rng.random(), 1 - rng.random() * 1e-7, 1. / 3])
    m = POMDP(T, O, R, start, disc, values=mode, **kw)
    ck.input(mode, disc, kw, 'T=', T.tolist(), 'O=', O.tolist(), 'start=', start.tolist(), 'R=', R.tolist())
    if mode == 'cost':
        R = -R
    path = m.dump_to(os.getcwd(), 'model')
    ck.eq(path, os.path.join(os.getcwd(), 'model.pomdp'), 'path')
    with open(path) as f:
        txt = f.read()
    ck.eq(m.dump(), txt, 'file holds the description')
    lines = [l.rstrip() for l in txt.split('\n') if l.strip()]
    na, ns, no = O.shape
    S = kw['states'] if 'states' in kw else None
    A = kw['actions'] if 'actions' in kw else None
    Z = kw['observations'] if 'observations' in kw else None

    def nxt(what):
        ck.that(bool(lines), 'text goes on with ' + what)
        return lines.pop(0)
    head = {}
    for _ in range(5):
        k, v = nxt('preamble').split(':', 1)
        head[k.strip()] = v.strip()
    ck.eq(sorted(head), ['actions', 'discount', 'observations', 'states', 'values'], 'preamble')
    ck.eq(float(head['discount']), float(disc), 'discount')
    ck.eq(head['values'], 'reward', 'values')
    for k, names, n in (('states', S, ns), ('actions', A, na), ('observations', Z, no)):
        ck.eq(head[k].split(), names if names is not None else [str(n)], k)
    l = nxt('start')
    ck.that(l.startswith('start: '), 'start line', l)
    row(ck, l[7:], start, 'start')
    A = A or [str(x) for x in range(na)]
    S = S or [str(x) for x in range(ns)]
    for nm, arr in (('T', T), ('O', O)):
        for ia, a in enumerate(A):
            h = nxt(nm + ' block')
            ck.eq([x.strip() for x in h.split(':')], [nm, a], 'header of block')
            for s in range(ns):
                row(ck, nxt(nm + ' row'), arr[ia, s], '%s %s row %d' % (nm, a, s))
    for ia, a in enumerate(A):
        for s, sn in enumerate(S):
            h = nxt('R block')
            ck.eq([x.strip() for x in h.split(':')], ['R', a, sn], 'header of block')
            for t in range(ns):
                row(ck, nxt('R row'), R[ia, s, t], 'R %s %s row %d' % (a, sn, t))
    ck.eq(lines, [], 'nothing more')
