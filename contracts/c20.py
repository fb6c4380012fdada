"""C20  The planner's history and its position in the tree stay in step."""
from .tree import *
from contracts import c18

RUN = MOD + 'POMCPPolicyRunner'
TREE = MOD + '_SearchTree'




def world(I):
    classes(I)
    E = I.E
    n = E.fresh_int('n_actions')
    E.assume(n > 0)
    I.refclasses['Model'] = RefClass('Model', {'actions': TList(TStr), 'observations': TList(TStr)},
                                     attrs={'n_actions': lambda I, m: n})
    m = RefV('Model', E.fresh_int('model'))
    E.assume(eqn(content(I, F(I, m, 'actions')).n, n))
    return m, n


def tree(I, m, root):
    return obj(I, TREE, model=m, root=root, _node_params=I.new_cont('dict', DictC(items=[])))


class GetNode(Contract):
    """The node reached by a history: its actions and observations are followed link by link;
    what is missing is created (an observation node carries the successor belief of the node
    before), nothing that exists changes."""
    qual = TREE + '.get_node'
    title = '_SearchTree.get_node'
    may_raise = ('MaxSamplesReached',)
    bound_text = 'histories of at most six elements (any tree, any indices)'

    def configs(self):
        return [0, 1, 2, 3, 4, 5, 6]

    def args(self, I):
        m, n = world(I)
        self.n_act = n
        root = self.root = ref(I, 'Obs', 'root')
        return [tree(I, m, root), pylist(I, [I.E.fresh_int('h%d' % i) for i in range(self.cfg)])]

    def pre(self, I, a):
        h = content(I, a[1])
        return well_formed(I, self.n_act) + [
            ('valid history', AND(*[AND(le(0, h.get(i)), lt(h.get(i), self.n_act)) for i in range(0, self.cfg, 2)]))]

    def capture(self, I, a):
        return Heap(I)

    def writes(self, I, a):
        return [('heap', c, f) for c, f in (('Obs', 'children'), ('Act', 'children'), ('Obs', 'belief'), ('Obs', '_avg'),
                                            ('Act', '_avg'), ('Avg', 'n_simulations'), ('Avg', 'total_value'),
                                            ('Avg', 'alpha'), ('Obs', '_children_alpha'))]

    def post(self, I, a, old, r):
        new, top = Heap(I), I.E.ghost['_top']
        h = content(I, a[1])
        r = I.resolve(r)
        if isinstance(r, Opt):
            out0 = [('a node', NOT(r.none))]
            r = r.val
        else:
            out0 = []
        x = F(I, a[0], 'root').id
        out = out0 + [('root kept', eqn(F(I, a[0], 'root').id, self.root.id))]
        for i in range(self.cfg):
            if i % 2 == 0:
                c = new.act(x, h.get(i))
                out.append(('action link %d' % i, NOT(c.none) if isinstance(c, Opt) else True))
                c = c.val.id if isinstance(c, Opt) else c.id
                out.append(('action node kept %d' % i, OR(x >= top, old.act(x, h.get(i)).none,
                                                          old.act(x, h.get(i)).val.id == c)))
                last, x = x, c
            else:
                out.append(('observation link %d' % i, new.has(x, h.get(i))))
                c = new.obs(x, h.get(i)).id
                kept = AND(x < top, old.has(x, h.get(i)))
                out += [('observation node kept %d' % i, IMP(kept, old.obs(x, h.get(i)).id == c)),
                        ('new observation node %d: successor belief' % i, IMP(NOT(kept), new.belief(c) == SUCC(
                            new.belief(last), intx(h.get(i - 1)), intx(h.get(i))))),
                        ('new observation node %d: one slot per action' % i, IMP(NOT(kept), AND(
                            c >= top, eqn(new.n(c), self.n_act))))]
                x = c
        cls = 'Obs' if self.cfg % 2 == 0 else 'Act'
        return out + [('node reached by the history', AND(r.cls == cls, r.id == x))] + self.preserved(I, old, new, top)

    def preserved(self, I, old, new, top):
        o, c = z3.Int('wo'), z3.Int('wc')
        return [
            ('action nodes kept', FA([Z, Z], lambda o, a: AND(o < top, le(0, a), lt(a, self.n_act), NOT(old.act(o, a).none)),
                                     lambda o, a: AND(NOT(new.act(o, a).none), new.act(o, a).val.id == old.act(o, a).val.id))),
            ('observation nodes kept', FA([Z, Z], lambda c, o: AND(c < top, old.has(c, o)),
                                          lambda c, o: AND(new.has(c, o), new.obs(c, o).id == old.obs(c, o).id))),
            ('beliefs kept', FA([Z], lambda o: o < top, lambda o: new.belief(o) == old.belief(o)))]


REACHED = z3.Function('node_of_history', Z, Z)


class Returns(Contract):
    def call(self, I, a):
        try:
            return ('ok', Contract.call(self, I, a))
        except PyExc as e:
            return ('raised', e)


def runner(I, last=True):
    """A planner on an arbitrary tree that logs what it is asked.  Node of the k-th requested
    history: REACHED(k)."""
    E = I.E

    def get_node(I, t, args, kw):
        I.E.ghost['_asked'] = I.E.ghost.get('_asked', ()) + (content(I, args[0]),)
        if I.E.choose(2):
            raise PyExc(I.get_class(MAX), obj=I.alloc(I.get_class(MAX), {'msg': 'x'}))
        return RefV('Node', REACHED(z3.IntVal(len(I.E.ghost['_asked']))))

    def simulate(I, t, args, kw):
        I.call(I.getattr(F(I, t, 'log'), 'append'), [(args[0].id, len(args) + len(kw) > 1)], {})

    def best(I, o, args, kw):
        I.E.ghost['_best'] = I.E.ghost.get('_best', ()) + ((o.id, list(args), dict(kw)),)
        b = I.E.fresh_int('best')
        I.E.assume(AND(le(0, b), lt(b, content(I, F(I, F(I, F(I, RUNNER[0], 'tree'), 'model'), 'actions')).n)))
        return b
    I.refclasses['Model'] = RefClass('Model', {'actions': TList(TStr), 'observations': TList(TStr)})
    I.refclasses['Belief'] = RefClass('Belief', {})
    I.refclasses['Node'] = RefClass('Node', {'belief': TRef('Belief')}, methods={'get_best_action': best})
    I.refclasses['Tree'] = RefClass('Tree', {'model': TRef('Model'), 'root': TRef('Node'), 'log': TList(TTup(TInt, TBool))},
                                    methods={'get_node': get_node, 'simulate_from_node': simulate})
    t = RefV('Tree', E.fresh_int('tree'))
    la = E.fresh_int('last_action') if last else None
    o = obj(I, RUN, tree=t, history=lst(I, 'history', TInt), _node=RefV('Node', E.fresh_int('node')), _last_action=la,
            iterations=E.fresh_int('iterations'))
    RUNNER[0] = o
    return o


RUNNER = [None]


def same(a, b):
    return FA([], None, True) if a is b else AND(eqn(a.n, b.n))


def state(I, o):
    la = F(I, o, '_last_action')
    return content(I, F(I, o, 'history')), F(I, o, '_node'), la


def same_state(I, o, old, last=True):
    h, node, la = state(I, o)
    out = [('history kept', eqn(h.n, old[0].n)), ('history kept: elements', ALL(h.n, lambda i: eqn(h.get(i), old[0].get(i)))),
           ('position kept', node.id == old[1].id)]
    if last:
        out.append(('last action kept', same_opt(la, old[2])))
    return out


def same_opt(a, b):
    def p(x):
        return (x.none, x.val) if isinstance(x, Opt) else (x is None, 0 if x is None else x)
    (m, x), (n, y) = p(a), p(b)
    return AND(boolx(m) == boolx(n), OR(m, eqn(x, y)))


class Step(Returns):
    """The history grows by the last action and the index of the observation and the position is the
    node of that history; refused before any action and for an unknown observation; nothing
    changes when refused or when the move fails."""
    qual = RUN + '.step'
    title = 'POMCPPolicyRunner.step'
    exhaustive = True

    def configs(self):
        return [True, False]

    def args(self, I):
        return [runner(I, self.cfg), I.E.fresh(TStr, 'observation')]

    def capture(self, I, a):
        return state(I, a[0])

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, res):
        o = a[0]
        obs = content(I, F(I, F(I, F(I, o, 'tree'), 'model'), 'observations'))
        asked = I.E.ghost.get('_asked', ())
        no = old[2].none if isinstance(old[2], Opt) else z3.BoolVal(old[2] is None)
        act = old[2].val if isinstance(old[2], Opt) else old[2]
        if res[0] == 'raised':
            e = res[1].cls
            out = same_state(I, o, old)
            if e is I.get_class(MAX):
                return out + [('a move was tried', len(asked) == 1), ('some action done', NOT(no))]
            return out + [('ValueError', 'ValueError' in str(res[1])),
                          ('no move was tried', len(asked) == 0),
                          ('refused only before any action or for an unknown observation', ALL(obs.n, lambda i: OR(
                              no, NOT(eqn_str(obs.get(i), a[1])))))]
        h, node, la = state(I, o)
        if len(asked) != 1:
            return [('one move', False)]
        q = asked[0]
        k = q.get(sub(q.n, 1))
        return [('after some action', NOT(no)),
                ('node of the history', node.id == REACHED(z3.IntVal(1))),
                ('of the new history', AND(eqn(q.n, h.n))),
                ('of the new history: elements', ALL(q.n, lambda i: eqn(q.get(i), h.get(i)))),
                ('grows by two', eqn(h.n, add(old[0].n, 2))),
                ('history before', ALL(old[0].n, lambda i: eqn(h.get(i), old[0].get(i)))),
                ('last action', eqn(h.get(old[0].n), act)),
                ('a known observation', AND(le(0, k), lt(k, obs.n))),
                ('index of the observation', eqn_str(obs.get(k), a[1])),
                ('last action kept', same_opt(la, old[2]))]


def eqn_str(a, b):
    return z3_str(a) == z3_str(b)


def z3_str(s):
    return s if is_z(s) else str_term(s)


class GetAction(Contract):
    """Explores from the current position the requested number of times, without imposing an
    action, then returns the name of the best action without exploration and remembers it;
    history and position do not change."""
    qual = RUN + '.get_action'
    title = 'POMCPPolicyRunner.get_action'

    def configs(self):
        return [False, True]
    exhaustive = True

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        o = self.o = runner(I)
        self.its = I.E.fresh_int('its') if self.cfg else F(I, o, 'iterations')
        return [o] + ([self.its] if self.cfg else [])

    def pre(self, I, a):
        return [('iterations', le(0, self.its))]

    def capture(self, I, a):
        self.log0 = self.log(I)
        return state(I, a[0])

    def log(self, I):
        return content(I, F(I, F(I, self.o, 'tree'), 'log'))

    def writes(self, I, a):
        return [(a[0], '_last_action'), ('heap', 'Tree', 'log')]

    def explored(self, I, k):
        log = self.log(I)
        return [('explorations', eqn(log.n, add(self.log0.n, k))),
                ('from the position', ALL(k, lambda i: AND(
                    eqn(log.get(add(self.log0.n, i))[0], F(I, self.o, '_node').id),
                    NOT(log.get(add(self.log0.n, i))[1]))))]

    def invariant(self, I, st):
        return self.explored(I, st.k)

    def post(self, I, a, old, r):
        best = I.E.ghost.get('_best', ())
        if len(best) != 1:
            return [('one best action', False)]
        node, args, kw = best[0]
        la = F(I, a[0], '_last_action')
        acts = content(I, F(I, F(I, F(I, a[0], 'tree'), 'model'), 'actions'))
        return (self.explored(I, self.its) + same_state(I, a[0], old, last=False) +
                [('best action of the position', node == old[1].id),
                 ('without exploration', AND(*[eqn(real(x), 0.) if not isinstance(x, bool) else not x
                                               for x in list(args) + list(kw.values())])),
                 ('remembered', NOT(la.none) if isinstance(la, Opt) else la is not None),
                 ('its name', eqn_str(acts.get(la.val if isinstance(la, Opt) else la), r))])


class Reset(Returns):
    qual = RUN + '.reset'
    title = 'POMCPPolicyRunner.reset'
    exhaustive = True

    def configs(self):
        return [False, True]

    def args(self, I):
        return [runner(I)] + ([RefV('Belief', I.E.fresh_int('belief'))] if self.cfg else [])

    def capture(self, I, a):
        return state(I, a[0])

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, res):
        if self.cfg:
            return [('refused for a given belief', res[0] == 'raised' and 'NotImplementedError' in str(res[1]))]
        if res[0] == 'raised':
            return [('resets', False)]
        h, node, la = state(I, a[0])
        return [('empty history', eqn(h.n, 0)), ('root', node.id == F(I, F(I, a[0], 'tree'), 'root').id),
                ('no action yet', la is None)]


class Belief(Contract):
    qual = RUN + '.belief'
    title = 'POMCPPolicyRunner.belief'

    def args(self, I):
        return [runner(I)]

    def call(self, I, a):
        return I.getattr(a[0], 'belief')

    def post(self, I, a, old, r):
        return [('belief of the position', r.id == F(I, F(I, a[0], '_node'), 'belief').id)]


CONTRACTS = [Step(), GetAction(), Reset(), Belief(), GetNode()]
LEVEL = 'proof'
NOTE = ('step, get_action and reset of the planner for any tree, history and observation; the walk of get_node through '
        'any tree')
