N = (300, 6000)
RULE = 'tasks of 0..5 subtasks; random observation sequences; the plan followed independently'


def case(rng, i, ck):
    from task_models.task import (HierarchicalTask, SequentialCombination, LeafCombination)
    from task_models.supportive import SupportivePOMDP, AssembleLeg, USES
    from task_models.policy import PolicyLongSupportiveSequence, PolicyRunner
    n = rng.randint(1, 5)
    m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('leg-%d' % k)) for k in range(n)], name='t')
                        if n > 1 or rng.random() < .5 else LeafCombination(AssembleLeg('leg')))
    p = PolicyLongSupportiveSequence(m)
    tools = ['screws', 'screwdriver', 'joints']
    pfail = rng.choice([0., .2, .5])
    hist = []
    n_ep = rng.choice([1, 1, 2])
    for ep in range(n_ep):
        if ep or rng.random() < .3:
            p.reset()
        del hist[:]
        plan = ['bring ' + t for t in tools] + sum([['bring leg', 'hold H'] for _ in range(n)], []) + \
            ['clear ' + t for t in tools]
        pos = 0
        expect_hist = []
        if rng.random() < .3:
            ck.raises(ValueError, lambda: p.step('none'), 'observing before any action')
        for _ in range(rng.choice([5, 2 * len(plan), 60])):
            want = plan[pos] if pos < len(plan) else 'wait'
            ck.input('subtasks', n, 'history', hist)
            a = p.get_action() if rng.random() < .7 else p.get_action(iterations=3)
            if rng.random() < .2:
                ck.eq(p.get_action(), a, 'asking again gives the same action')
            ck.eq(a, want, 'action after %r' % (hist,))
            ia = m.actions.index(a)
            o = 'fail' if rng.random() < pfail else rng.choice(['none', 'none', 'none', 'not-found', 'yes', 'no', 'what'])
            hist.append((a, o))
            ck.input('subtasks', n, 'history', hist)
            if o == 'what':
                ck.raises(ValueError, lambda: p.step(o), 'unknown observation')
                continue
            bad = o in ('yes', 'no') or (o == 'not-found' and a == 'hold H')
            if bad:
                ck.raises(PolicyRunner.UnexpectedObservation, lambda: p.step(o), 'uninterpretable observation')
                continue
            p.step(o)
            if o != 'fail' and pos < len(plan):
                pos += 1
