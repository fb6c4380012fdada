import numpy as np
from gen import belief

N = (600, 20000)
RULE = 'random feature counts (0..4 objects/bodies/preferences, 1..6 steps, sometimes 60+ objects), random write sequences'


def case(rng, i, ck):
    from task_models.supportive import _SupportivePOMDPState as St
    big = rng.random() < .1
    nh = rng.randint(1, 6)
    np_, nb = rng.randint(0, 3), rng.randint(0, 2)
    no = rng.randint(60, 70) if big else rng.randint(0, 4)
    tot = nh * 2 ** (np_ + nb + no)
    s0 = rng.randrange(tot)
    ck.input('n_htm=%d n_pref=%d n_body=%d n_obj=%d s=%d' % (nh, np_, nb, no, s0))
    if rng.random() < .3:
        st = St(nh, np_, nb, no)
        s0 = 0
    else:
        st = St(nh, np_, nb, no, s=s0)
    ck.eq(st.to_int(), s0, 'integer of a new state')
    ck.eq((st.n_htm, st.n_preferences, st.n_body_features, st.n_objects), (nh, np_, nb, no), 'sizes')
    ck.eq(st.n_states, tot, 'number of states')
    feats = [('preference', k) for k in range(np_)] + [('body_feature', k) for k in range(nb)] + \
        [('object', k) for k in range(no)]

    def read(x):
        d = {f: int(getattr(x, 'has_' + f[0])(f[1])) for f in feats}
        d['htm'] = int(x.htm)
        return d
    v = read(st)
    ck.that(0 <= v['htm'] < nh and all(v[f] in (0, 1) for f in feats), 'features in range', v)
    hist = []
    for _ in range(12):
        if rng.random() < .25 or not feats:
            n = rng.randrange(nh)
            st.htm = n
            v['htm'] = n
            hist.append(('htm', n))
        else:
            f = rng.choice(feats)
            b = rng.randrange(2)
            getattr(st, 'set_' + f[0])(f[1], b)
            v[f] = b
            hist.append((f, b))
        ck.eq(read(st), v, 'features after writing %r' % hist)
        ck.that(0 <= st.to_int() < tot, 'integer in range after %r' % hist, st.to_int())
        ck.eq(bool(st.is_final()), v['htm'] == nh - 1, 'final state')
        ck.eq(read(St(nh, np_, nb, no, s=st.to_int())), v, 'features of the encoded integer')
    c = st.copy()
    ck.eq(read(c), v, 'features of a copy')
    ck.eq(c.to_int(), st.to_int(), 'integer of a copy')
    ck.eq(bool(c.is_final()), bool(st.is_final()), 'final state of a copy')
    ck.eq((c.n_htm, c.n_preferences, c.n_body_features, c.n_objects, c.n_states), (nh, np_, nb, no, tot),
          'sizes of a copy')
    for f in feats[:2]:
        getattr(c, 'set_' + f[0])(f[1], 1 - v[f])
    c.htm = nh - 1
    ck.eq(bool(c.is_final()), True, 'copy at its final step')
    ck.eq(read(st), v, 'copy is independent')
    # distinct features have distinct encodings
    if tot <= 64:
        ck.eq(len(set(tuple(sorted((str(k), w) for k, w in read(St(nh, np_, nb, no, s=s)).items()))
                      for s in range(tot))), tot, 'encoding is injective')
    if tot <= 4000:
        b = belief(rng, tot)
        sts = [St(nh, np_, nb, no, s=s) for s in range(tot)]
        q = st.belief_quotient(b.copy())
        ck.close(q, [sum(b[s] for s in range(tot) if sts[s].htm == h) for h in range(nh)], 'quotient belief')
        p = st.belief_preferences(b.copy())
        ck.close(p, [sum(b[s] for s in range(tot) if sts[s].has_preference(k)) for k in reversed(range(np_))],
                 'preference belief (most significant preference first)')
