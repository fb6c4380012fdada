import numpy as np
from gen import pomdp_args

N = (1500, 30000)
RULE = ('random model arguments with at most two defects: a wrong dimension, a row off by 1e-3 or '
        '1e-7, duplicate names, wrong number of names, discount out of range, unknown value mode')

DEFECTS = ['none'] * 4 + ['shape', 'shape', 'row', 'tinyrow', 'dup', 'names', 'discount', 'mode',
                          'ndim', 'start', 'twodup']


def case(rng, i, ck):
    from task_models.lib.pomdp import POMDP
    T, O, R, start, kw = pomdp_args(rng)
    na, ns, no = O.shape
    d = rng.choice([0, 0., .3, .95, 1, 1.])
    mode = rng.choice(['reward', 'cost', None])
    bad = False
    arrs = {'T': T, 'O': O, 'R': R, 'start': start}
    defects = [rng.choice(DEFECTS) for _ in range(rng.choice([1, 1, 2]))]
    for k in defects:
        if k == 'shape':
            n = rng.choice(sorted(arrs))
            x = arrs[n]
            ax = rng.randrange(x.ndim)
            arrs[n] = np.concatenate([x, np.take(x, [0], ax) * rng.choice([0., 1.])], ax) \
                if rng.random() < .6 or x.shape[ax] == 1 else np.delete(x, 0, ax)
            if rng.random() < .7 and n != 'R':
                # keep the rows normal: only the shape is wrong
                y = arrs[n]
                y[..., :] = 0.
                y[..., 0] = 1.
        elif k == 'row' or k == 'tinyrow':
            n = rng.choice(['T', 'O', 'start'])
            x = arrs[n].copy()
            ix = tuple(rng.randrange(q) for q in x.shape)
            x[ix] += rng.choice([-1, 1]) * (2e-3 if k == 'row' else 1e-8)
            arrs[n] = x
        elif k in ('dup', 'twodup', 'names'):
            dims = {'states': ns, 'actions': na, 'observations': no}
            n = rng.choice(sorted(dims))
            names = ['n%d' % j for j in range(dims[n])]
            if k == 'names':
                if rng.random() < .5 and len(names) > 1:
                    names.pop()
                else:
                    names.append('more')
            elif len(names) > 1:
                p, q = rng.sample(range(len(names)), 2)
                names[p] = names[q]
                if k == 'twodup' and len(names) > 3:
                    names[(p + 1) % 4] = names[(p + 2) % 4]
            kw[n] = tuple(names) if rng.random() < .3 else names
        elif k == 'discount':
            d = rng.choice([-.01, 1.01, 2, -1])
        elif k == 'mode':
            mode = rng.choice(['costs', 'x', 'Reward', ''])
        elif k == 'ndim':
            n = rng.choice(sorted(arrs))
            x = arrs[n]
            arrs[n] = x[None] if rng.random() < .5 or x.ndim == 1 else x[0]
        elif k == 'start':
            x = arrs['start'].copy()
            x[:] = 0.
            x[0] = rng.choice([.9, 1.1, 1., 0.])
            arrs['start'] = x
    T, O, R, start = arrs['T'], arrs['O'], arrs['R'], arrs['start']
    kwargs = dict(kw)
    if mode is not None:
        kwargs['values'] = mode
    ck.input(defects, 'T=', T.tolist(), 'O=', O.tolist(), 'start=', start.tolist(), 'R.shape=',
             R.shape, 'discount=', d, kwargs)
    ok = O.ndim == 3
    if ok:
        na, ns, no = O.shape
        na = len(kw['actions']) if 'actions' in kw else na
        ns = len(kw['states']) if 'states' in kw else ns
        no = len(kw['observations']) if 'observations' in kw else no
        ok = start.shape == (ns,) and T.shape == (na, ns, ns) and O.shape == (na, ns, no) and \
            R.shape == (na, ns, ns, no)
        ok = ok and all(len(set(v)) == len(v) for v in kw.values())
        ok = ok and 0 <= d <= 1 and mode in ('reward', 'cost', None)
        for x in (start, T, O):
            ok = ok and bool((abs(x.sum(-1) - 1.) < 1e-5).all())
    copies = [x.copy() for x in (T, O, R, start)]
    if not ok:
        ck.raises(ValueError, lambda: POMDP(T, O, R, start, d, **kwargs), 'malformed model refused')
    else:
        m = POMDP(T, O, R, start, d, **kwargs)
        ck.same(m.T, copies[0], 'T')
        ck.same(m.O, copies[1], 'O')
        ck.same(m.R, -copies[2] if mode == 'cost' else copies[2], 'R')
        ck.same(m.start, copies[3], 'start')
        ck.eq(m.discount, d, 'discount')
        for n, q in (('states', ns), ('actions', na), ('observations', no)):
            want = list(kw[n]) if n in kw else list(range(q))
            ck.eq(list(getattr(m, n)), want, n)
            ck.eq(getattr(m, 'n_' + n), q, 'n_' + n)
    for x, y in zip((T, O, R, start), copies):
        ck.same(x, y, 'arguments not modified')
