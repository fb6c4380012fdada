import numpy as np
from gen import pomdp

N = (500, 8000)
RULE = 'samplers that give out after k samples, random particle counts; successor beliefs over random models'


def case(rng, i, ck):
    from task_models.lib.belief import ParticleBelief, MaxSamplesReached
    n, ns = rng.choice([1, 2, 5, 20]), rng.randint(1, 5)
    give = rng.choice([None, 0, 1, 2, n // 2, n - 1, n, n + 1])
    made = []

    def sampler():
        if give is not None and len(made) >= give:
            raise MaxSamplesReached(0, 0, None)
        made.append(rng.randrange(ns))
        return made[-1]
    ck.input('particles', n, 'states', ns, 'sampler gives out after', give)
    if give is not None and give == 0:
        ck.raises(MaxSamplesReached, lambda: ParticleBelief(sampler, ns, n_particles=n), 'no sample at all')
    else:
        b = ParticleBelief(sampler, ns, n_particles=n) if rng.random() < .5 else ParticleBelief(sampler, ns, n)
        k = n if give is None else min(give, n)
        ck.eq(len(made), k, 'number of samples drawn')
        ck.eq(len(b.part_states), n, 'number of particles')
        ck.eq(list(b.part_states[:k]), made, 'sampled particles')
        ck.that(set(b.part_states) <= set(made), 'particles come from the sampler')
        ck.close(b.array, [list(b.part_states).count(s) / float(n) for s in range(ns)], 'histogram')
        for _ in range(5):
            ck.that(b.sample() in made, 'sample is a particle')
        parts = list(b.part_states)
        ck.eq(parts, list(b.part_states), 'particles unchanged by use')
    m = pomdp(rng)
    n = rng.choice([1, 2, 6])
    parent = ParticleBelief(m.sample_start, m.n_states, n_particles=n)
    ps = list(parent.part_states)
    ck.that(all(m.start[s] > 0 for s in ps), 'start particles possible')
    log = []
    real = m.sample_transition

    def rec(a, s):
        r = real(a, s)
        log.append((a, s) + tuple(r))
        return r
    m.sample_transition = rec
    a, o = rng.randrange(m.n_actions), rng.randrange(m.n_observations)
    ck.input('T=', m.T.tolist(), 'O=', m.O.tolist(), 'parent', ps, 'a=', a, 'o=', o)
    pos = any(m.T[a, s, t] > 0 and m.O[a, t, o] > 0 for s in ps for t in range(m.n_states))
    try:
        c = parent.successor(m, a, o)
    except MaxSamplesReached:
        c = None
    ck.that(len(log) <= 100 * n, 'number of trials', len(log))
    ck.that(all(x[0] == a and x[1] in ps for x in log), 'trials from particles of the parent under the action')
    ends = [x[2] for x in log if x[3] == o]
    if c is None:
        ck.eq(ends, [], 'failure only when nothing was sampled')
        ck.eq(len(log), 100 * n, 'all trials used before failing')
    else:
        ck.that(pos, 'observation possible')
        ck.eq(len(c.part_states), n, 'number of particles of the successor')
        ck.that(len(ends) > 0 and set(c.part_states) <= set(ends), 'particles are sampled end states')
        k = min(len(ends), n)
        ck.eq([int(x) for x in c.part_states[:k]], [int(x) for x in ends[:k]], 'sampled end states are kept')
        ck.that(len(ends) >= n or len(log) == 100 * n, 'trials used before repeating particles')
        ck.eq(c.n_states, m.n_states, 'states')
    ck.eq(list(parent.part_states), ps, 'parent unchanged')
