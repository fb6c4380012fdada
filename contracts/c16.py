"""C16  Object and action tables agree with the task and with each other."""
from .supp import *
from pyvc.values import *


NAMED = z3.Function('NAMED', Str, z3.BoolSort())
KEPT = z3.Function('KEPT', Str, z3.BoolSort())


class GetId(Contract):
    """The index of the object, which is added (not clearable) if it is not there yet."""
    qual = MODEL + '.get_object_id'
    title = 'SupportivePOMDP.get_object_id'

    def args(self, I):
        ob, cl = lst(I, 'objects', TStr), lst(I, 'clearable', TBool)
        return [obj(I, MODEL, objects=ob, clearable=cl), I.E.fresh(TStr, 'name')]

    def pre(self, I, a):
        ob, cl = [content(I, F(I, a[0], x)) for x in ('objects', 'clearable')]
        return [('one flag per object', eqn(ob.n, cl.n)),
                ('each object once', distinct(I, ob))]

    def capture(self, I, a):
        return content(I, F(I, a[0], 'objects')), content(I, F(I, a[0], 'clearable'))

    def writes(self, I, a):
        return [F(I, a[0], 'objects'), F(I, a[0], 'clearable')]

    def modifies(self, I, a):
        new = I.E.fresh(TBool, 'new')
        for x, v in (('objects', a[1]), ('clearable', False)):
            c = F(I, a[0], x)
            s = content(I, c)
            I.write(I.resolve(c).lv, extended(s, v, new))
        self.new = new

    def result(self, I, a, old):
        return I.E.fresh_int('id')

    def post(self, I, a, old, r):
        ob0, cl0 = old
        ob, cl = [content(I, F(I, a[0], x)) for x in ('objects', 'clearable')]
        return [('at most one more', OR(eqn(ob.n, ob0.n), eqn(ob.n, add(ob0.n, 1)))),
                ('one flag per object', eqn(ob.n, cl.n)),
                ('the index of the object', AND(le(0, r), lt(r, ob.n))),
                ('named so', I.truth(I.eq(ob.get(r), a[1]))),
                ('added last and only if new', IMP(NOT(eqn(ob.n, ob0.n)), AND(eqn(r, ob0.n), NOT(boolx(cl.get(ob0.n)))))),
                ('each object once', distinct(I, ob)),
                ('others unchanged', ALL(ob0.n, lambda k: AND(I.truth(I.eq(ob.get(k), ob0.get(k))), eqb(cl.get(k), cl0.get(k)))))]


def eqb(x, y):
    return boolx(x) == boolx(y)


def extended(s, v, new):
    return Seq(ite(boolx(new), add(s.n, 1), s.n), lambda k: v if s.items == [] else ite(boolx(eqn(k, s.n)), v, s.get(k)))


def distinct(I, s):
    return ALL([s.n, s.n], lambda i, j: IMP(lt(i, j), NOT(I.truth(I.eq(s.get(i), s.get(j))))))


def named_and_kept(I, ns):
    """What NAMED and KEPT are: any predicates that hold of all named and kept objects."""
    at = lambda i, j: conds(I, ns.get(i)).get(j)
    return FA([z3.IntSort()] * 2, lambda i, j: AND(
        le(0, i), lt(i, ns.n), le(0, j), lt(j, conds(I, ns.get(i)).n)),
        lambda i, j: AND(NAMED(z(at(i, j)[1])), IMP(keeps(I, at(i, j)[0]), KEPT(z(at(i, j)[1])))))


class Populate(Contract):
    """The object list holds exactly the objects named by the conditions, each once; an object is
    clearable exactly when some condition keeps it.  `exactly': for any predicates NAMED and KEPT
    that hold of every object named (kept) by a condition, they hold of every object listed
    (clearable)."""
    qual = MODEL + '._populate_conditions'
    title = 'SupportivePOMDP._populate_conditions'
    uses = [GetId()]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        E = I.E
        nodes = leaves(I)
        ns = content(I, nodes)
        self.m = obj(I, MODEL, htm_nodes=nodes)
        return [self.m]

    def pre(self, I, a):
        return [('predicates', named_and_kept(I, content(I, F(I, a[0], 'htm_nodes'))))]

    def writes(self, I, a):
        return [(a[0], x) for x in ('objects', 'clearable', 'htm_conditions')]

    def modifies(self, I, a):
        self.m = a[0]
        I.setattr(a[0], 'objects', lst(I, I.E.fresh_name('objects'), TStr))
        I.setattr(a[0], 'clearable', lst(I, I.E.fresh_name('clearable'), TBool))
        I.setattr(a[0], 'htm_conditions', lst(I, I.E.fresh_name('conditions'), TList(TTup(TInt, TInt))))

    def tables(self, I, upto, last=None):
        """State of the tables when the first `upto` nodes are done (and, of the next one, the
        first `last` conditions)."""
        m = self.m
        ns = content(I, F(I, m, 'htm_nodes'))
        ob, cl, hc = [content(I, F(I, m, x)) for x in ('objects', 'clearable', 'htm_conditions')]
        done = lambda i: content(I, hc.get(i)).n
        ent = lambda i, j: content(I, hc.get(i)).get(j)
        want = lambda i, j: conds(I, ns.get(i)).get(j)
        out = [('one flag per object', eqn(cl.n, ob.n)),
               ('one condition list per step', eqn(hc.n, ns.n)),
               ('each object once', ALL([ob.n, ob.n], lambda i, j: IMP(lt(i, j), NOT(
                   I.truth(I.eq(ob.get(i), ob.get(j))))))),
               ('only named objects', ALL(ob.n, lambda i: NAMED(z(ob.get(i))))),
               ('only kept objects are clearable', ALL(ob.n, lambda i: IMP(
                   boolx(cl.get(i)), KEPT(z(ob.get(i)))))),
               ('conditions done', ALL(upto, lambda i: eqn(done(i), conds(I, ns.get(i)).n))),
               ('entry', FA([z3.IntSort()] * 2, lambda i, j: AND(le(0, i), lt(i, hc.n), le(0, j), lt(j, done(i))),
                            lambda i, j: AND(eqn(ent(i, j)[0], want(i, j)[0]), le(0, ent(i, j)[1]),
                                             lt(ent(i, j)[1], ob.n),
                                             I.truth(I.eq(ob.get(ent(i, j)[1]), want(i, j)[1])),
                                             IMP(keeps(I, want(i, j)[0]), boolx(cl.get(ent(i, j)[1])))))),
               ]
        if last is None:
            out.append(('conditions to do', ALL([(upto, ns.n)], lambda i: eqn(done(i), 0))))
        else:
            out.append(('conditions to do', ALL([(add(upto, 1), ns.n)], lambda i: eqn(done(i), 0))))
            out.append(('conditions of this step', eqn(done(upto), last)))
        return out

    def invariant(self, I, st):
        if st.depth == 1:
            return self.tables(I, st.k)
        if st.depth == 2:
            return self.tables(I, st.outer[-1], st.k)

    def post(self, I, a, old, r):
        return self.tables(I, content(I, F(I, a[0], 'htm_nodes')).n)


class Indices(Contract):
    qual = MODEL + '._init_object_actions_indices'
    title = 'SupportivePOMDP._init_object_actions_indices'

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        cl = lst(I, 'clearable', TBool)
        ob = lst(I, 'objects', TStr)
        I.E.assume(eqn(content(I, cl).n, content(I, ob).n))
        self.m = obj(I, MODEL, clearable=cl, objects=ob)
        return [self.m]

    def writes(self, I, a):
        return [(a[0], x) for x in ('_a_bring', '_a_clear', '_skip_to_a_obj')]

    def invariant(self, I, st):
        m = self.m
        cl = content(I, F(I, m, 'clearable'))
        br, cr = content(I, F(I, m, '_a_bring')), content(I, F(I, m, '_a_clear'))
        n = cl.n
        k = st.k
        P = lambda o: position(I, cl, o)
        return [
            ('lengths', AND(eqn(br.n, n), eqn(cr.n, n))),
            ('next index', eqn(st.var('j'), P(k))),
            ('bring entries', ALL(k, lambda o: AND(NOT(is_none(I, br.get(o))), eqn(some(br.get(o)), P(o))))),
            ('clear entries', ALL(k, lambda o: ite(boolx(cl.get(o)), AND(NOT(is_none(I, cr.get(o))), eqn(
                some(cr.get(o)), add(P(o), 1))), is_none(I, cr.get(o))))),
            ('no clear entries yet', ALL([(k, n)], lambda o: is_none(I, cr.get(o)))),
            ('objects in turn', ALL([k, k], lambda i, j: IMP(lt(i, j), le(
                add(P(i), ite(boolx(cl.get(i)), 2, 1)), P(j))))),
            ('next after all', ALL(k, lambda i: le(add(P(i), ite(boolx(cl.get(i)), 2, 1)), P(k)))),
            ('after the first four', ALL(k, lambda i: le(4, P(i)))), ('next after the first four', le(4, P(k))),
        ]

    def modifies(self, I, a):
        I.setattr(a[0], '_skip_to_a_obj', I.E.fresh_int('skip'))
        I.setattr(a[0], '_a_bring', lst(I, I.E.fresh_name('a_bring'), TOpt(TInt)))
        I.setattr(a[0], '_a_clear', lst(I, I.E.fresh_name('a_clear'), TOpt(TInt)))

    def pre(self, I, a):
        return [('one flag per object', eqn(content(I, F(I, a[0], 'clearable')).n, content(I, F(I, a[0], 'objects')).n))]

    def post(self, I, a, old, r):
        return [('four actions first', eqn(F(I, a[0], '_skip_to_a_obj'), 4))] + tables(I, a[0])


def table_model(I):
    """Any model whose tables are as _init_object_actions_indices makes them."""
    E = I.E
    ob, cl = lst(I, 'objects', TStr), lst(I, 'clearable', TBool)
    E.assume(eqn(content(I, ob).n, content(I, cl).n))
    m = obj(I, MODEL, objects=ob, clearable=cl, _a_bring=lst(I, 'a_bring', TOpt(TInt)),
            _a_clear=lst(I, 'a_clear', TOpt(TInt)), _skip_to_a_obj=4)
    return m


class Table(Contract):
    def args(self, I):
        return [table_model(I)] + [I.E.fresh_int(x) for x in self.params]

    def pre(self, I, a):
        return tables(I, a[0])

    params = ()

    def parts(self, I, m):
        return [content(I, F(I, m, x)) for x in ('objects', 'clearable', '_a_bring', '_a_clear')]


class Names(Table):
    """The name list: the four fixed actions, then `bring X' and possibly `clear X' for each
    object in turn, each at the index the tables give."""
    qual = MODEL + '.actions'
    title = 'SupportivePOMDP.actions (names)'

    def post(self, I, a, old, r):
        ob, cl, br, cr = self.parts(I, a[0])
        s = seq(I, r)
        at = lambda k, v: I.truth(I.eq(s.get(k), v))
        cat = lambda p, o: num_op_str(I, p, ob.get(o))
        return [('number of actions', eqn(s.n, add(add(4, ob.n), sum_(I, cl.n, lambda i: ite(boolx(cl.get(i)), 1, 0))))),
                ('fixed actions', AND(*[at(i, v) for i, v in enumerate(['wait', 'hold H', 'hold V', 'ask hold'])])),
                ('bring actions', ALL(ob.n, lambda o: AND(lt(some(br.get(o)), s.n), at(some(br.get(o)), cat('bring ', o))))),
                ('clear actions', ALL(ob.n, lambda o: IMP(boolx(cl.get(o)), AND(
                    lt(some(cr.get(o)), s.n), at(some(cr.get(o)), cat('clear ', o))))))]


def num_op_str(I, p, o):
    from pyvc.builtins_ import binop
    return binop(I, 'Add', p, o)


class Decode(Table):
    qual = MODEL + '._obj_from_action'
    title = 'SupportivePOMDP._obj_from_action'
    params = ('a',)

    def is_for(self, I, m, a, o):
        ob, cl, br, cr = self.parts(I, m)
        return OR(eqn(some(br.get(o)), a), AND(boolx(cl.get(o)), eqn(some(cr.get(o)), a)))

    def exc(self, I, a):
        n = self.parts(I, a[0])[0].n
        return [('ValueError', I.E.fa_expr(ALL(n, lambda o: NOT(self.is_for(I, a[0], a[1], o)))),
                 'the action is for no object')]

    def result(self, I, a, old):
        return I.E.fresh_int('obj')

    def post(self, I, a, old, r):
        n = self.parts(I, a[0])[0].n
        return [('an object', AND(le(0, r), lt(r, n))), ('the object of the action', self.is_for(I, a[0], a[1], r)),
                ('no other object', ALL(n, lambda o: IMP(self.is_for(I, a[0], a[1], o), eqn(o, r))))]


class IsBring(Table):
    qual = MODEL + '._is_bring'
    title = 'SupportivePOMDP._is_bring'
    params = ('a',)

    def post(self, I, a, old, r):
        ob, cl, br, cr = self.parts(I, a[0])
        return [('brings', ALL(ob.n, lambda o: IMP(eqn(some(br.get(o)), a[1]), I.truth(r)))),
                ('clears', ALL(ob.n, lambda o: IMP(AND(boolx(cl.get(o)), eqn(some(cr.get(o)), a[1])), NOT(I.truth(r))))),
                ('four actions first', IMP(lt(a[1], 4), NOT(I.truth(r))))]

    def result(self, I, a, old):
        return I.E.fresh(TBool, 'is_bring')


class Bring(Table):
    qual = MODEL + '._bring'
    title = 'SupportivePOMDP._bring'
    params = ('o',)

    def pre(self, I, a):
        return tables(I, a[0]) + [('an object', AND(le(0, a[1]), lt(a[1], self.parts(I, a[0])[0].n)))]

    def post(self, I, a, old, r):
        return [('index', AND(NOT(is_none(I, r)), eqn(some(r), position(I, self.parts(I, a[0])[1], a[1]))))]


class Clear(Bring):
    qual = MODEL + '._clear'
    title = 'SupportivePOMDP._clear'

    def exc(self, I, a):
        return [('ValueError', NOT(boolx(self.parts(I, a[0])[1].get(a[1]))), 'the object is not clearable')]

    def post(self, I, a, old, r):
        return [('index', AND(NOT(is_none(I, r)), eqn(some(r), add(position(I, self.parts(I, a[0])[1], a[1]), 1))))]


class Decodable(Lemma):
    """Every index from 4 to the number of actions is a bring or clear action of some object."""
    title = 'lemma: every object action is in the tables'

    def prove(self, I):
        from pyvc.builtins_ import flatten
        E = I.E
        cl = content(I, lst(I, 'clearable', TBool))
        P = lambda o: position(I, cl, o)
        fl = flatten(I, Seq(cl.n, lambda i: Seq(add(1, ite(boolx(cl.get(i)), 1, 0)), lambda k: 0)))
        ss, cs, blk = fl.meta['flat']
        a = E.fresh_int('a')
        E.assume([4 <= a, lt(a, add(add(4, cl.n), sum_(I, cl.n, lambda i: ite(boolx(cl.get(i)), 1, 0))))])
        o = blk(a - 4)
        E.prove('total', eqn(cs(cl.n), sub(P(cl.n), 4)))
        E.prove('an object', AND(0 <= o, lt(o, cl.n)))
        E.prove('its action', OR(eqn(a, P(o)), AND(boolx(cl.get(o)), eqn(a, add(P(o), 1)))))


class Dag(Contract):
    """The graph of steps that _HTMToDAG builds (its meaning is C13)."""
    qual = SUP + '_HTMToDAG.__init__'
    title = '_HTMToDAG.__init__ (C13)'
    trusted = True

    def modifies(self, I, a):
        E = I.E
        nodes = leaves(I)
        I.setattr(a[0], 'nodes', nodes)
        I.setattr(a[0], 'succs', lst(I, 'succs', TList(TInt)))
        I.setattr(a[0], 'init', lst(I, 'init', TInt))
        ns, ss = content(I, nodes), content(I, F(I, a[0], 'succs'))
        E.assume(eqn(ns.n, ss.n))
        E.assume(named_and_kept(I, ns))


class Make(Contract):
    """The constructed model: consistent tables, the number of states and actions, the graph."""
    qual = MODEL + '.__init__'
    title = 'SupportivePOMDP.__init__'
    uses = [Dag(), Populate(), Indices()]

    def args(self, I):
        leaves(I)
        self.htm = obj(I, 'task_models.task:LeafCombination')
        self.m = obj(I, MODEL)
        return [self.m, self.htm, I.E.fresh(TReal, 'discount')]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        m = a[0]
        ob, cl = content(I, F(I, m, 'objects')), content(I, F(I, m, 'clearable'))
        n = content(I, F(I, m, 'htm_nodes')).n
        succ = content(I, F(I, m, 'htm_succs'))
        from pyvc.builtins_ import num_op
        p = Populate()
        p.m = m
        return tables(I, m) + p.post(I, a, old, r) + [
            ('discount', eqn(F(I, m, 'discount'), a[2])),
            ('no simulation yet', eqn(F(I, m, 'n_simulator_calls'), 0)),
            ('number of states', eqn(F(I, m, 'n_states'), mul(add(n, 2), num_op(I, 'Pow', 2, add(ob.n, 2))))),
            ('number of actions', eqn(F(I, m, 'n_actions'), add(add(4, ob.n), sum_(
                I, cl.n, lambda i: ite(boolx(cl.get(i)), 1, 0))))),
            ('successors of every step', AND(eqn(succ.n, n))),
            ('some successor', ALL(n, lambda i: lt(0, content(I, succ.get(i)).n)))]


CONTRACTS = [GetId(), Populate(), Indices(), Names(), Decode(), IsBring(), Bring(), Clear(), Decodable(), Make(), Dag()]
LEVEL = 'proof'
NOTE = ('object tables for any task (invariants over nodes and conditions), index tables, name list, '
        'decoding, construction')
TRUSTED = ['_HTMToDAG as a list of steps with successor lists (C13)']
