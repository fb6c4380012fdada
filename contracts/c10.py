"""C10  Hierarchical tasks become valid models (bring-next)."""
from .htm import *

MOD = 'task_models.bring_next_to_pomdp:'
# Of a state of the model (absolute index), in the task as laid out from s_start on:
GET, ASK = z3.Function('getting_its_object', Z, Z), z3.Function('asking_about_its_object', Z, Z)
FOLLOWS = z3.Function('follows', Z, Z, B_)
NONE, YES, NO, ERR = range(4)


class Node(Contract):
    """Filling of the rows of a node, for any node; for a combination from the contract at its children."""
    fn = ''
    bound_text = Init.bound_text
    dims = 3
    timeout_ms = 15000

    def __init__(self, kind):
        self.kind = kind
        if kind is None:
            return
        self.qual = MOD + ('_LeafToPOMDP', '_SequenceToPOMDP', '_AlternativesToPOMDP')[kind] + '.' + self.fn
        self.title = self.qual.split(':')[1]
        self.exhaustive = kind == LEAF

    def configs(self):
        return [(0, f) for f in (False, True)] if self.kind == LEAF else [(n, False) for n in (1, 2, 3)]

    def setup(self, I):
        node_class(I, methods={self.fn: Child(self)})

    def builder(self, I):
        E = I.E
        self.nget, self.na, self.ns = E.fresh_int('objects'), E.fresh_int('actions'), E.fresh_int('states')
        E.assume(AND(1 <= self.nget, self.nget < self.na, self.na == 2 * self.nget))
        self.cost = E.fresh(TReal, 'cost_get')
        self.ai = I.new_cont('dict', mk(TDict(TStr, TInt), E.fresh_name('action_indices')).lv.content)
        self.flags = {'no-ans'} if self.cfg[1] else set()
        return obj(I, MOD + 'HTMToPOMDP', action_indices=self.ai, cost_get=self.cost,
                   flags=I.new_cont('set', SetC(lambda x: OR(*[I.truth(I.eq(y, x)) for y in sorted(self.flags)]), sorted(self.flags))))

    def this(self, I):
        E = I.E
        self.v = v = E.fresh_int('node')
        n, _ = self.cfg
        if self.kind == LEAF:
            get, ask = E.fresh(TStr, 'get'), E.fresh(TStr, 'ask')
            d = content(I, self.ai)
            self.get = intx(d.get(get))
            E.assume(AND(boolx(d.has(get)), boolx(d.has(ask)), self.get == GET(self.s), intx(d.get(ask)) == ASK(self.s), SIZE(v) == 1))
            self.cs = []
            return obj(I, MOD + '_LeafToPOMDP', get=get, ask=ask)
        self.cs = cs = [E.fresh_int('child') for _ in range(n)]
        self.off = offsets(cs)
        E.assume(SIZE(v) == self.off[n])
        for c in cs:
            child_facts(I, c)
        return combination(I, MOD, self.kind, cs)

    def args(self, I):
        E = I.E
        b = self.builder(I)
        s = self.s = E.fresh_int('s_start')
        o = self.this(I)
        self.me = o
        x = arr(I, E.fresh_name(self.fn), (self.na, self.ns) + self.tail())
        if self.fn == 'update_T' and self.kind == LEAF:
            # the row of a step starts with zeros
            c = I.read(I.resolve(x).lv)
            I.write(I.resolve(x).lv, NArr(c.shape, lambda a, r, t: z3.If(intx(r) == s, z3.RealVal(0), real(c.get(a, r, t))), 'r'))
        nx = lst(I, E.fresh_name('s_next'), TInt)
        self.nextp = named_member(I, content(I, nx))
        if self.kind == LEAF:
            E.assume(FA([Z], lambda t: True, lambda t: FOLLOWS(s, t) == self.nextp(t), lambda t: [FOLLOWS(s, t)]))
        a = [o, x, b, s, nx]
        if self.fn == 'update_T':
            a.append(lst(I, E.fresh_name('s_next_probas'), TReal))
            if self.kind != LEAF:
                f = z3.Function(E.fresh_name('row_sum'), Z, Z, R_)
                E.ghost['mass'] = lambda a, r: f(a, r)
        return a

    def tail(self):
        return (self.ns,)

    def node(self, I, a):
        o = I.resolve(a[0])
        return intx(o.id) if isinstance(o, RefV) else self.v

    def sizes(self, I, a):
        sh = I.read(I.resolve(a[1]).lv).shape
        return intx(sh[0]), intx(sh[1])

    def pre(self, I, a):
        v, s = self.node(I, a), intx(a[3])
        na, ns = self.sizes(I, a)
        nx = content(I, a[4])
        ok = lambda i: AND(0 <= i, i < SIZE(v))
        out = [('states of the model', AND(0 <= s, s + SIZE(v) <= ns))]
        own = lambda r: AND(s <= r, r < s + SIZE(v))
        out.append(('actions of the builder', FA([Z], own, lambda r: AND(0 <= GET(r), GET(r) < self.nget, self.nget <= ASK(r), ASK(r) < na),
                                                 lambda r: [[GET(r)], [ASK(r)]])))
        if isinstance(I.resolve(a[0]), RefV):
            out.append(('the next states are the first of what follows', FA(
                [Z], lambda t: True, lambda t: member(nx, t) == self.expected(a)(t))))
        return out + next_ok(I, ns, s, SIZE(v), nx, content(I, a[5]) if self.fn == 'update_T' else None) + self.needs(I, a)

    def needs(self, I, a):
        return []

    def expected(self, a):
        """Which states follow: those given, or the first of the next element of a sequence."""
        if self.me is a[0] or not isinstance(a[0], RefV):
            return self.nextp
        m = [i for i, c in enumerate(self.cs) if c.eq(intx(a[0].id))][0]
        if self.kind == SEQ and m + 1 < len(self.cs):
            return lambda t: ISINIT(self.cs[m + 1], t - self.s - self.off[m + 1])
        return self.nextp

    def capture(self, I, a):
        return arrays(I, a[1]), I.E.ghost.get('mass')

    def writes(self, I, a):
        return [a[1]]

    def havoc(self, I, a):
        havoc(I, a[1], 'filled')

    def facts(self, I, a):
        v, s = self.node(I, a), intx(a[3])
        own = lambda r: AND(s <= r, r < s + SIZE(v))
        nx = content(I, a[4])
        return v, s, own, nx, FOLLOWS


class Moves(Node):
    """Transitions from the states of the node."""
    fn = 'update_T'

    def needs(self, I, a):
        v, s = self.node(I, a), intx(a[3])
        na, ns = self.sizes(I, a)
        T = arrays(I, a[1])
        return [('nothing filled in so far', FA(A3, lambda a, r, t: AND(0 <= a, a < na, s <= r, r < s + SIZE(v), 0 <= t, t < ns),
                                               lambda a, r, t: T(a, r, t) == 0))]

    def havoc(self, I, a):
        self.filled = havoc(I, a[1], 'T')
        old = I.E.ghost['mass']
        f = z3.Function(I.E.fresh_name('row_sum'), Z, Z, R_)
        v, s, own, nx, follow = self.facts(I, a)
        na, ns = self.sizes(I, a)
        I.E.ghost['mass'] = lambda a, r: f(a, r)
        I.E.assume(FA([Z, Z], lambda a, r: AND(0 <= r, r < ns, NOT(own(r))), lambda a, r: f(a, r) == old(a, r), lambda a, r: [f(a, r)]))

    def post(self, I, a, old, r):
        v, s, own, nx, follow = self.facts(I, a)
        na, ns = self.sizes(I, a)
        T0, _ = old
        T = arrays(I, a[1])
        m = mass(I, a[1])
        ix = lambda a, r, t: AND(0 <= a, a < na, 0 <= r, r < ns, 0 <= t, t < ns)
        fa = lambda rng, body: FA(A3, rng, body)
        return [('other rows kept', fa(lambda a, r, t: AND(ix(a, r, t), NOT(own(r))), lambda a, r, t: T(a, r, t) == T0(a, r, t))),
                ('not negative', fa(lambda a, r, t: AND(ix(a, r, t), own(r)), lambda a, r, t: T(a, r, t) >= 0)),
                ('only getting its object leaves a step', fa(lambda a, r, t: AND(ix(a, r, t), own(r), a != GET(r)),
                                                             lambda a, r, t: T(a, r, t) == z3.If(t == r, z3.RealVal(1), z3.RealVal(0)))),
                ('to the first states of a step that follows', fa(lambda a, r, t: AND(ix(a, r, t), own(r), a == GET(r), T(a, r, t) != 0),
                                                                  lambda a, r, t: follow(r, t))),
                ('rows sum to one', [FA([Z], lambda a: AND(0 <= a, a < na, a != self.get), lambda a: m(a, s) == 1), m(self.get, s) == 1]
                 if self.kind == LEAF and isinstance(I.resolve(a[0]), ObjV) else FA([Z, Z], lambda a, r: AND(0 <= a, a < na, own(r)), lambda a, r: m(a, r) == 1))]


class Answers(Node):
    """Observations: the answer about the object of each state; what getting it tells."""
    fn = 'update_O'

    def tail(self):
        return (4,)

    def post(self, I, a, old, r):
        v, s, own, nx, follow = self.facts(I, a)
        na, ns = self.sizes(I, a)
        O0, _ = old
        O = arrays(I, a[1])
        who = self
        nget = who.nget
        noans = 'no-ans' in who.flags if self.kind in (LEAF, None) else None
        q = z3.Bool('answers_may_be_missing')
        yes = lambda o: [z3.If(q, z3.RealVal('0.1'), z3.RealVal(0)), z3.If(q, z3.RealVal('0.9'), z3.RealVal(1)), z3.RealVal(0), z3.RealVal(0)][o]
        if noans is not None:
            I.E.assume(q == noans)
        good = lambda o: [z3.RealVal('0.9'), z3.RealVal(0), z3.RealVal(0), z3.RealVal('0.1')][o]
        ix = lambda a, r: AND(0 <= a, a < na, 0 <= r, r < ns)
        out = []
        for o in range(4):
            out += [('answer %d about its object' % o, FA([Z, Z], lambda a, r: AND(ix(a, r), own(r), a == ASK(r)), lambda a, r, o=o: O(a, r, o) == yes(o))),
                    ('other answers kept (%d)' % o, FA([Z, Z], lambda a, r: AND(ix(a, r), a >= nget, NOT(AND(own(r), a == ASK(r)))),
                                                       lambda a, r, o=o: O(a, r, o) == O0(a, r, o)))]
        out.append(('getting: kept or as the right object', FA([Z, Z], lambda a, r: AND(ix(a, r), a < nget), lambda a, r: OR(
            AND(*[O(a, r, o) == O0(a, r, o) for o in range(4)]), AND(*[O(a, r, o) == good(o) for o in range(4)])))))
        return out


class Costs(Node):
    """Costs: that of getting the right object, where the process can move."""
    fn = 'update_R'

    def tail(self):
        return (self.ns, 4)

    def post(self, I, a, old, r):
        v, s, own, nx, follow = self.facts(I, a)
        na, ns = self.sizes(I, a)
        R0, _ = old
        R = arrays(I, a[1])
        who = self
        cost = real(who.cost)
        ix = lambda a, r, t, o: AND(0 <= a, a < na, 0 <= r, r < ns, 0 <= t, t < ns, 0 <= o, o < 4)
        A4 = [Z] * 4
        right = lambda a, r, t: AND(own(r), a == GET(r), follow(r, t))
        return [('other costs kept', FA(A4, lambda a, r, t, o: AND(ix(a, r, t, o), NOT(right(a, r, t))), lambda a, r, t, o: R(a, r, t, o) == R0(a, r, t, o))),
                ('the right object', FA(A4, lambda a, r, t, o: AND(ix(a, r, t, o), right(a, r, t)), lambda a, r, t, o: R(a, r, t, o) == cost))]


class MakeLeaf(Contract):
    """One state; named after the action; the actions about its object."""
    qual = MOD + '_LeafToPOMDP.__init__'
    title = '_LeafToPOMDP.__init__'

    def setup(self, I):
        I.refclasses['Leaf'] = RefClass('Leaf', {}, attrs={'action': lambda I, o: RefV('Act', intx(o.id))})
        I.refclasses['Act'] = RefClass('Act', {'name': TStr, 'obj': TStr})

    def args(self, I):
        self.l = I.E.fresh_int('leaf')
        return [obj(I, self.qual[:-9]), RefV('Leaf', self.l)]

    def writes(self, I, a):
        return [(a[0], x) for x in ('leaf', 'states', 'get', 'ask')]

    def post(self, I, a, old, r):
        o = a[0]
        ob = I.getattr(RefV('Act', self.l), 'obj')
        st, ini, sta = [I.E_list(F(I, o, x)) for x in ('states', 'init', 'start')]
        return [('one state, the first', AND(eqn(st.n, 1), eqn(ini.n, 1), eqn(ini.get(0), 0), eqn(sta.n, 1), real(sta.get(0)) == 1)),
                ('getting its object', str_term(F(I, o, 'get')) == str_term(mkstr(['get-', ob]))),
                ('asking about its object', str_term(F(I, o, 'ask')) == str_term(mkstr(['ask-', ob])))]


class Build(Contract):
    """Names and indices of the actions."""
    qual = MOD + 'HTMToPOMDP.__init__'
    title = 'HTMToPOMDP.__init__'
    exhaustive = True

    def configs(self):
        return [(x, y, d) for x in (True, False) for y in (True, False) for d in (None, True)]

    def args(self, I):
        E = I.E
        loop, no, d = self.cfg
        self.com, self.get, self.err, self.rew = [E.fresh(TReal, x) for x in ('t_com', 't_get', 't_err', 'end_reward')]
        self.objects = lst(I, E.fresh_name('objects'), TStr)
        self.d = None if d is None else E.fresh(TReal, 'discount')
        return [obj(I, MOD + 'HTMToPOMDP'), self.com, self.get, self.err, self.objects, self.rew, self.d, loop, no]

    def pre(self, I, a):
        s = content(I, a[4])
        n = intx(s.n)
        return [('objects', 1 <= n)]

    def writes(self, I, a):
        return [(a[0], x) for x in ('cost_com', 'cost_get', 'cost_err', 'end_reward', 'discount', 'get', 'ask', 'actions',
                                    'get_indices', 'ask_indices', 'action_indices', 'flags')]

    def post(self, I, a, old, r):
        o = a[0]
        loop, no, d = self.cfg
        s = content(I, a[4])
        n = s.n
        acts, gi, ai = [I.E_list(F(I, o, x)) for x in ('actions', 'get_indices', 'ask_indices')]
        name = lambda p, i: str_term(mkstr([p, s.get(i)]))
        flags = content(I, F(I, o, 'flags'))
        has = lambda x: boolx(flags.mem(x)) if flags.items is None else any(y == x for y in flags.items)
        ix = content(I, F(I, o, 'action_indices'))
        return [('costs', AND(*[real(F(I, o, f)) == real(x) for f, x in (('cost_com', self.com), ('cost_get', self.get), ('cost_err', self.err), ('end_reward', self.rew))])),
                ('discount', real(F(I, o, 'discount')) == (z3.RealVal('0.9' if loop else 1) if d is None else real(self.d))),
                ('two actions per object', AND(eqn(acts.n, mul(2, n)), eqn(gi.n, n), eqn(ai.n, n))),
                ('getting first', ALL(n, lambda i: str_term(acts.get(i)) == name('get-', i))),
                ('then asking', ALL(n, lambda i: str_term(acts.get(add(n, i))) == name('ask-', i))),
                ('where they are', ALL(n, lambda i: AND(eqn(gi.get(i), i), eqn(ai.get(i), add(n, i))))),
                ('options', AND(boolx(has('loop')) == loop, boolx(has('no-ans')) == no)),
                ('index of each action', [ALL(mul(2, n), lambda i: boolx(ix.has(acts.get(i)))), ALL(mul(2, n), lambda i: AND(
                    0 <= intx(ix.get(acts.get(i))), intx(ix.get(acts.get(i))) < 2 * intx(n), I.truth(I.eq(acts.get(ix.get(acts.get(i))), acts.get(i)))))])]


class Model(Contract):
    """The model of a task, from the contracts at its root."""
    qual = MOD + 'HTMToPOMDP.task_to_pomdp'
    title = 'HTMToPOMDP.task_to_pomdp'
    exhaustive = True
    timeout_ms = 15000

    def configs(self):
        return [(x, y) for x in (True, False) for y in (True, False)]

    def setup(self, I):
        me = self
        self.specs = [Moves(None), Answers(None), Costs(None)]
        node_class(I, methods={c.fn: Child(c) for c in self.specs},
                   attrs={'observations': lambda I, o: I.getattr(I.get_class(MOD + '_NodeToPOMDP'), 'observations')})
        I.refclasses['Task'] = RefClass('Task', {}, attrs={'root': lambda I, o: RefV('Root', intx(o.id))})
        I.refclasses['Root'] = RefClass('Root', {})

        class From(Contract):
            qual = MOD + '_NodeToPOMDP.from_node'
            title = '_NodeToPOMDP.from_node'

            def result(self, I, a, old):
                return RefV('N', me.v)

        class Made(Contract):
            qual = 'task_models.lib.pomdp:POMDP.__init__'
            title = 'POMDP.__init__'

            def apply(self, I, f, args, kw):
                me.made = self.bind(I, f, args, kw)
        I.contracts[From.qual], I.contracts[Made.qual] = From(), Made()

    def args(self, I):
        E = I.E
        loop, no = self.cfg
        self.made = None
        self.n = n = E.fresh_int('objects')
        self.v = v = E.fresh_int('root')
        E.assume(1 <= n)
        child_facts(I, v)
        E.ghost['mass'] = None
        f = z3.Function(E.fresh_name('row_sum'), Z, Z, R_)
        E.ghost['mass'] = lambda a, r: f(a, r)
        c = {x: E.fresh(TReal, x) for x in ('cost_com', 'cost_get', 'cost_err', 'end_reward', 'discount')}
        self.c = c
        fl = (['loop'] if loop else []) + (['no-ans'] if no else [])
        nm = z3.Function('some_action', Z, Str)
        for s in self.specs:
            s.nget, s.na, s.cost, s.flags, s.me, s.cs, s.s, s.get = n, 2 * n, c['cost_get'], set(fl), None, [], 0, None
            s.expected = lambda a: (lambda t: t == SIZE(v))
        own = lambda r: AND(0 <= r, r < SIZE(v))
        self.builder = obj(I, MOD + 'HTMToPOMDP', flags=I.new_cont('set', SetC(lambda x: OR(*[I.truth(I.eq(y, x)) for y in fl]), fl)),
                           actions=I.new_list(Seq(2 * n, lambda i: nm(intx(i)))),
                           get_indices=I.new_list(Seq(n, lambda i: i)), ask_indices=I.new_list(Seq(n, lambda i: add(n, i))), **c)
        # every object of the task is one of the builder's
        E.assume(FA([Z], own, lambda r: AND(0 <= GET(r), GET(r) < n, n <= ASK(r), ASK(r) < 2 * n), lambda r: [[GET(r)], [ASK(r)]]))
        return [self.builder, RefV('Task', E.fresh_int('task'))]

    def post(self, I, a, old, r):
        E = I.E
        loop, no = self.cfg
        if self.made is None:
            return [('a model', False)]
        n, v = self.n, self.v
        _, T, O, R, start, disc = self.made[:6]
        f = I.get_func('task_models.lib.pomdp:POMDP.__init__')
        kw = dict(zip([x.arg for x in f.node.args.args], self.made))
        end = SIZE(v)
        na, ns = 2 * n, end + 1
        shapes = [I.read(I.resolve(x).lv).shape for x in (T, O, R, start)]
        T, O, R, S = [arrays(I, x) for x in (T, O, R, start)]
        own = lambda r: AND(0 <= r, r < end)
        act = lambda a: AND(0 <= a, a < na)
        m = E.ghost['mass']
        A4 = [Z] * 4
        st, ac = [I.E_list(kw[x]) for x in ('states', 'actions')]
        right = lambda a, r, t: AND(own(r), a == GET(r), FOLLOWS(r, t))
        c = {k: real(x) for k, x in self.c.items()}

        def base(a, r, t):
            return z3.If(right(a, r, t), c['cost_get'], z3.If(a < n, c['cost_err'], c['cost_com']))
        if loop:
            cost = lambda a, r, t: z3.If(r == end, -c['end_reward'], base(a, r, t))
        else:
            cost = lambda a, r, t: z3.If(t == end, z3.If(r == end, z3.RealVal(0), base(a, r, t) - c['end_reward']), base(a, r, t))
        dist = lambda *p: (lambda O, a, r: AND(*[O(a, r, o) == z3.RealVal(x) for o, x in enumerate(p)]))
        yes, nope = (dist('0.1', '0.9', 0, 0), dist('0.1', 0, '0.9', 0)) if no else (dist(0, 1, 0, 0), dist(0, 0, 1, 0))
        out = [('shapes', AND(*[eqn(x, y) for s, w in zip(shapes, [(na, ns, ns), (na, ns, 4), (na, ns, ns, 4), (ns,)]) for x, y in zip(s, w)])),
               ('names', AND(eqn(st.n, ns), eqn(ac.n, na))),
               ('states of the task', ALL(end, lambda i: str_term(st.get(i)) == STATE(v, intx(i)))),
               ('start: not negative', FA([Z], lambda t: AND(0 <= t, t < ns), lambda t: S(t) >= 0)),
               ('start: in the first steps', FA([Z], lambda t: AND(0 <= t, t < ns, S(t) != 0), lambda t: ISINIT(v, t))),
               ('start: sums to one', real(sum_(I, ns, lambda t: S(t))) == 1),
               ('transitions: not negative', FA(A3, lambda a, r, t: AND(act(a), 0 <= r, r < ns, 0 <= t, t < ns), lambda a, r, t: T(a, r, t) >= 0)),
               ('only getting its object leaves a step', FA(A3, lambda a, r, t: AND(act(a), own(r), 0 <= t, t < ns, a != GET(r)),
                                                            lambda a, r, t: T(a, r, t) == z3.If(t == r, z3.RealVal(1), z3.RealVal(0)))),
               ('to a step that follows', FA(A3, lambda a, r, t: AND(act(a), own(r), 0 <= t, t < ns, a == GET(r), T(a, r, t) != 0), lambda a, r, t: FOLLOWS(r, t))),
               ('transitions: sum to one', [FA(A3, lambda a, r, t: AND(act(a), own(r), 0 <= t, t < ns), lambda a, r, t: T(a, r, t) == self.specs[0].filled(a, r, t)),
                                            FA([Z, Z], lambda a, r: AND(act(a), own(r)), lambda a, r: m(a, r) == 1)]),
               ('at the end', [FA([Z, Z], lambda a, t: AND(act(a), 0 <= t, t < ns, T(a, end, t) != 0), lambda a, t: ISINIT(v, t) if loop else t == end),
                               FA([Z], act, lambda a: real(sum_(I, ns, lambda t: T(a, end, t))) == 1)]),
               ('answers', FA([Z, Z], lambda a, r: AND(n <= a, a < na, 0 <= r, r < ns),
                              lambda a, r: OR(AND(own(r), a == ASK(r), yes(O, a, r)), AND(NOT(AND(own(r), a == ASK(r))), nope(O, a, r))))),
               ('what getting tells', FA([Z, Z], lambda a, r: AND(0 <= a, a < n, 0 <= r, r < ns),
                                         lambda a, r: OR(dist(0, 0, 0, 1)(O, a, r), dist('0.9', 0, 0, '0.1')(O, a, r)))),
               ('costs', FA(A4, lambda a, r, t, o: AND(act(a), 0 <= r, r < ns, 0 <= t, t < ns, 0 <= o, o < 4), lambda a, r, t, o: R(a, r, t, o) == cost(a, r, t))),
               ('discount', real(kw['discount']) == c['discount']), ('costs, not rewards', I.truth(I.eq(kw['values'], 'cost')))]
        return out


CONTRACTS = [Init(MOD), Starts(MOD)] + [c(k) for c in (Moves, Answers, Costs) for k in (LEAF, SEQ, ALT)] + [MakeLeaf(), Dispatch(MOD), Build(), Model()]
LEVEL = 'proof'
NOTE = ('layout, first states and filling of T, O and R for steps and for combinations of up to 3 children (of any size, through the '
        'contract itself), construction of the builder and of the whole model for any task')
EXPLANATION = ('proved for trees of any depth and size whose combinations have at most 3 children; more children by the oracle')
TRUSTED = ['numpy: row sums of equal rows are equal (extensionality of sums)']
ASSUMPTIONS = [
    'GET, ASK, FOLLOWS and the first states are spec functions of the laid out task, fixed at the leaves and by the children of combinations',
    'every object of the task is among the objects of the builder (KeyError otherwise); objects are distinct',
    'POMDP.__init__ has its own contract (C02)']
LEMMAS = ['Sums.lean']
