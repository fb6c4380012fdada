import os
import json
import numpy as np
from gen import pomdp, pomdp_args

N = (300, 5000)
RULE = 'random models (reward and cost, named or not) and policy graphs through every save/load variant'


def graph(rng, no=None, nn=None):
    nn = nn or (rng.randint(1, 5) if rng.random() < .8 else rng.randint(9, 30))
    no = no or rng.randint(1, 3)
    ns = rng.randint(1, 4)
    none = rng.random() < .6
    tr = [[None if none and rng.random() < .3 else rng.randrange(nn) for _ in range(no)]
          for _ in range(nn)]
    vals = np.array([[rng.randint(-20, 20) / 4. for _ in range(ns)] for _ in range(nn)])
    acts = ['a%d' % rng.randrange(3) for _ in range(nn)]
    return acts, ['o%d' % j for j in range(no)], tr, vals


def case(rng, i, ck):
    from task_models.lib.pomdp import POMDP, GraphPolicy
    T, O, R, start, kw = pomdp_args(rng)
    if rng.random() < .5:
        R = R * 1.123456789e-7 + rng.random()
    mode = rng.choice(['reward', 'cost'])
    disc = rng.choice([0., .5, .95, 1., 1])
    m = POMDP(T, O, R, start, disc, values=mode, **kw)
    ck.input('model', mode, kw, 'T=', T.tolist(), 'R=', R.tolist(), 'start=', start.tolist())
    want = [x.copy() for x in (m.T, m.O, m.R, m.start)]
    names = [list(m.states), list(m.actions), list(m.observations)]
    f = os.path.abspath('model.json')
    m.save_as_json(f)
    with open(f) as fp:
        d2 = json.load(fp)
    d1 = m.to_dict()
    ck.eq(json.loads(m.as_json()), json.loads(json.dumps(d1)), 'string variant stores the dictionary')
    ck.eq(d2, json.loads(json.dumps(d1)), 'file variant stores the dictionary')
    for nm, n in (('dict', POMDP.from_dict(m.to_dict())), ('json', POMDP.from_json(m.as_json())),
                  ('file', POMDP.load_from_json(f))):
        for k, x, y in zip('TORs', (n.T, n.O, n.R, n.start), want):
            ck.same(x, y, '%s after %s round trip' % (k, nm))
        ck.eq(n.discount, disc, 'discount after ' + nm)
        ck.eq([list(n.states), list(n.actions), list(n.observations)], names, 'names after ' + nm)
    acts, obs, tr, vals = graph(rng)
    init = rng.randrange(len(acts))
    g = GraphPolicy(acts, obs, tr, vals, init=init)
    ck.desc += ' policy %r init=%d' % (tr, init)
    f = os.path.abspath('policy.json')
    ind = rng.choice([None, 2])
    g.save_as_json(f, indent=ind)
    with open(f) as fp:
        d2 = json.load(fp)
    ck.eq(d2, json.loads(json.dumps(g.to_dict())), 'policy file variant stores the dictionary')
    ck.eq(json.loads(g.to_json(indent=ind)), d2, 'policy string variant stores the dictionary')
    for nm, n in (('dict', GraphPolicy.from_dict(g.to_dict())), ('json', GraphPolicy.from_json(g.to_json())),
                  ('file', GraphPolicy.load_from_json(f))):
        ck.eq(list(n.actions), acts, 'actions after ' + nm)
        ck.eq(list(n.observations), obs, 'observations after ' + nm)
        ck.eq(n.transitions.tolist(), tr, 'transitions after ' + nm)
        ck.same(n.values, vals, 'values after ' + nm)
        ck.eq(n.init, init, 'initial node after ' + nm)
