import io
import os
import numpy as np
from gen import pomdp

N = (800, 15000)
RULE = ('random value-function and policy-graph files with blank lines, trailing spaces, missing '
        'vectors, wrong numbering, disagreeing actions, missing actions or targets')


def alpha_text(rng, acts, vecs, cut=False):
    out = []

    def blank():
        while rng.random() < .3:
            out.append(rng.choice(['', '  ', '\t']))
    blank()
    for k, (a, v) in enumerate(zip(acts, vecs)):
        out.append(str(a))
        blank()
        if cut and k == len(acts) - 1:
            break
        out.append(' '.join('%r' % float(x) for x in v) + rng.choice(['', ' ']))
        blank()
    return '\n'.join(out) + rng.choice(['\n', '', '\n\n'])


def pg_text(rng, acts, trans, nums=None):
    out = []
    for k, (a, t) in enumerate(zip(acts, trans)):
        while rng.random() < .2:
            out.append('')
        out.append('%d %d  %s' % ((nums or range(len(acts)))[k], a,
                                  ' '.join('-' if x is None else str(x) for x in t)) +
                   rng.choice(['', ' ', '  ']))
    return '\n'.join(out) + rng.choice(['\n', '', '\n\n'])


def case(rng, i, ck):
    from task_models.lib.pomdp import (parse_value_function, parse_policy_graph,
                                       ValueFunctionParseError)
    m = pomdp(rng)
    na, ns, no = m.O.shape
    n = rng.randint(1, 6)
    acts = [rng.randrange(na) for _ in range(n)]
    vecs = [[rng.randint(-50, 50) * rng.choice([.125, .125, 1e-7, 1e20, 1. / 3]) for _ in range(ns)] for _ in range(n)]
    trans = [[None if rng.random() < .2 else rng.randrange(n) for _ in range(no)] for _ in range(n)]
    kind = rng.choice(['ok', 'ok', 'cut', 'nums', 'disagree', 'noaction', 'notarget', 'len'])
    acts2, nums = list(acts), None
    vacts, vvecs = list(acts), list(vecs)
    if kind == 'nums':
        if n > 1 and rng.random() < .5:
            nums = list(range(n))
            p, q = rng.sample(range(n), 2)
            nums[p], nums[q] = nums[q], nums[p]
        else:
            nums = [k + 1 for k in range(n)]
    elif kind == 'disagree':
        if na == 1:
            kind = 'ok'
        else:
            k = rng.randrange(n)
            acts2[k] = (acts2[k] + 1) % na
    elif kind == 'noaction':
        k = rng.randrange(n)
        vacts[k] = acts2[k] = na + rng.randrange(2)
    elif kind == 'notarget':
        trans[rng.randrange(n)][rng.randrange(no)] = n + rng.randrange(2)
    elif kind == 'len':
        vacts, vvecs = vacts + [0], vvecs + [vecs[0]]
    vt = alpha_text(rng, vacts, vvecs, cut=(kind == 'cut'))
    pt = pg_text(rng, acts2, trans, nums)
    ck.input(kind, 'alpha=', vt, 'pg=', pt, 'actions', na)
    if kind == 'cut':
        ck.raises(ValueFunctionParseError, lambda: parse_value_function(io.StringIO(vt)), 'missing vector')
    else:
        a, v = parse_value_function(io.StringIO(vt))
        ck.eq(list(a), vacts, 'actions of the value function')
        ck.same(v, np.array(vvecs), 'vectors of the value function')
    if kind == 'nums':
        ck.raises(Exception, lambda: parse_policy_graph(io.StringIO(pt)), 'numbering')
    else:
        a, t = parse_policy_graph(io.StringIO(pt))
        ck.eq(list(a), acts2, 'actions of the policy graph')
        ck.eq([list(x) for x in t], trans, 'transitions of the policy graph')
    d = os.getcwd()
    with open('sol.alpha', 'w') as f:
        f.write(vt)
    with open('sol.pg', 'w') as f:
        f.write(pt)
    if kind == 'ok':
        g = m.load_policy_from(d, 'sol')
        ck.eq(list(g.actions), [m.actions[k] for k in acts], 'policy actions')
        ck.eq(g.transitions.tolist(), trans, 'policy transitions')
        ck.same(g.values, np.array(vecs), 'policy vectors')
        ck.eq(list(g.observations), list(m.observations), 'policy observations')
        best = np.array(vecs).dot(m.start)
        ck.that(best[g.init] >= best.max() - 1e-9 * max(1, abs(best).max()), 'initial node optimal for the start belief', g.init)
    else:
        ck.raises(Exception, lambda: m.load_policy_from(d, 'sol'), 'inconsistent files (%s)' % kind)
