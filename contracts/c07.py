"""C07  Policy graph execution follows the policy."""
from pyvc.contract import *
from pyvc.interp import RefClass, PyExc
from pyvc.values import *
from pyvc import nplib
from .c01 import BeliefUpdate

L_ = 'task_models.lib.pomdp:'
POMDP, GP, RU, BR, AUX = L_ + 'POMDP', L_ + 'GraphPolicy', L_ + 'GraphPolicyRunner', L_ + 'GraphPolicyBeliefRunner', L_ + '_Aux'
Z = z3.IntSort()
NAME = TRef('Name')


class World(object):
    """A policy for a model: any numbers of states, actions, observations and nodes; names without
    duplicates; the actions of the nodes are actions of the model."""

    def __init__(self, I):
        E = I.E
        I.refclasses['Name'] = RefClass('Name', {})
        self.I = I
        self.na, self.ns, self.no, self.nn = [E.fresh_int(x) for x in ('na', 'ns', 'no', 'nn')]
        E.assume([x > 0 for x in (self.na, self.ns, self.no, self.nn)])
        self.T = arr(I, E.fresh_name('T'), (self.na, self.ns, self.ns))
        self.O = arr(I, E.fresh_name('O'), (self.na, self.ns, self.no))
        self.V = arr(I, E.fresh_name('values'), (self.nn, self.ns))
        self.A, self.Z = [self.names(I, n, k) for n, k in (('actions', self.na), ('observations', self.no))]
        nm = E.fresh_name('next')
        self.trans = nplib.newarr(I, NArr((self.nn, self.no), lambda i, j: mk(TOpt(TInt), nm, [intx(i), intx(j)]), 'o'))
        t = content(I, self.trans)
        E.assume(ALL([self.nn, self.no], lambda i, j: OR(t.get(i, j).none, AND(0 <= t.get(i, j).val, t.get(i, j).val < self.nn))))
        self.acts = lst(I, E.fresh_name('node_actions'), NAME)
        c = content(I, self.acts)
        E.assume(eqn(c.n, self.nn))
        self.ix = z3.Function(E.fresh_name('action_of_node'), Z, Z)
        E.assume(ALL(self.nn, lambda i: AND(0 <= self.ix(i), self.ix(i) < self.na,
                                            intx(c.get(i).id) == intx(content(I, self.A).get(self.ix(i)).id))))
        self.start = arr(I, E.fresh_name('start'), (self.ns,))
        self.init = E.fresh_int('init')
        E.assume(AND(0 <= self.init, self.init < self.nn))
        self.gp = obj(I, GP, actions=self.acts, observations=self.Z, transitions=self.trans, values=self.V, init=self.init)
        self.model = obj(I, POMDP, T=self.T, O=self.O, start=self.start, _a=self.A, _o=self.Z, _s=self.ns)

    def names(self, I, n, k):
        l = lst(I, I.E.fresh_name(n), NAME)
        c = content(I, l)
        I.E.assume(eqn(c.n, k))
        I.E.assume(FA([Z, Z], lambda i, j: AND(0 <= i, i < k, 0 <= j, j < k, i != j),
                      lambda i, j: intx(c.get(i).id) != intx(c.get(j).id)))
        return l

    def belief(self):
        return arr(self.I, self.I.E.fresh_name('belief'), (self.ns,))

    def value(self, b, k):
        """Expected value of node k on a belief."""
        v, b = content(self.I, self.V), content(self.I, b)
        return sum_(self.I, self.ns, lambda s: mul(v.get(k, s), b.get(s)))


def optimal(w, node, b):
    """The first node of maximal value."""
    E = w.I.E
    return AND(le(0, node), lt(node, w.nn),
               E.fa_expr(ALL(w.nn, lambda k: le(w.value(b, k), w.value(b, node)))),
               E.fa_expr(ALL(node, lambda k: lt(w.value(b, k), w.value(b, node)))))


class Node(Contract):
    qual = GP + '.get_node_from_belief'
    title = 'GraphPolicy.get_node_from_belief'
    w = None

    def args(self, I):
        self.w = World(I)
        return [self.w.gp, self.w.belief()]

    def result(self, I, a, old):
        return I.E.fresh_int('node')

    def post(self, I, a, old, r):
        return [('a node of maximal value', optimal(I.world, r, a[1]))]

    def setup(self, I):
        pass


class Next(Contract):
    """The transition of the node for this observation."""
    qual = GP + '.next'
    title = 'GraphPolicy.next'

    def args(self, I):
        w = I.world = World(I)
        cur, o = I.E.fresh_int('current'), RefV('Name', I.E.fresh_int('observation'))
        I.E.assume(AND(0 <= cur, cur < w.nn))
        return [w.gp, cur, o]

    def exc(self, I, a):
        return [('ValueError', NOT(known(I, I.world, a[2])), 'not an observation')]

    def post(self, I, a, old, r):
        w = I.world
        t, z_ = content(I, w.trans), content(I, w.Z)
        return [('the transition for this observation', ALL(w.no, lambda j: IMP(
            intx(z_.get(j).id) == intx(a[2].id), boolx(I.truth(I.eq(r, t.get(a[1], j)))))))]


def known(I, w, o):
    c = content(I, w.Z)
    j = z3.Const(I.E.fresh_name('j'), Z)
    return z3.Exists([j], AND(0 <= j, j < w.no, intx(c.get(j).id) == intx(o.id)))


class Node_(Node):
    def args(self, I):
        I.world = World(I)
        return [I.world.gp, I.world.belief()]


def runner(I, w, cls=RU, **f):
    return obj(I, cls, gp=w.gp, **f)


class Reset(Contract):
    qual = RU + '.reset'
    title = 'GraphPolicyRunner.reset'
    uses = [Node_()]
    exhaustive = True

    def configs(self):
        return ['without a belief', 'with a belief']

    def args(self, I):
        w = I.world = World(I)
        b = None if self.cfg.startswith('without') else w.belief()
        return [runner(I, w, current=I.E.fresh_int('old')), b]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        cur = F(I, a[0], 'current')
        w = I.world
        return [('initial node' if a[1] is None else 'a node of maximal value',
                 eqn(cur, w.init) if a[1] is None else optimal(w, cur, a[1]))]


class Act(Contract):
    qual = RU + '.get_action'
    title = 'GraphPolicyRunner.get_action'

    def args(self, I):
        w = I.world = World(I)
        cur = I.E.fresh_int('current')
        I.E.assume(AND(0 <= cur, cur < w.nn))
        return [runner(I, w, current=cur)]

    def result(self, I, a, old):
        return I.E.fresh(NAME, 'action')

    def post(self, I, a, old, r):
        return [('the action of the node', boolx(I.truth(I.eq(r, content(I, I.world.acts).get(F(I, a[0], 'current'))))))]


class Step(Contract):
    """Moves along the transition of the observation."""
    qual = RU + '.step'
    title = 'GraphPolicyRunner.step'

    def args(self, I):
        w = I.world = World(I)
        cur, self.j = I.E.fresh_int('current'), I.E.fresh_int('j')
        I.E.assume(AND(0 <= cur, cur < w.nn, 0 <= self.j, self.j < w.no))
        return [runner(I, w, current=cur), content(I, w.Z).get(self.j)]

    def capture(self, I, a):
        return content(I, I.world.trans).get(F(I, a[0], 'current'), self.j)

    def exc(self, I, a):
        return [(L_ + 'Impossible', self.capture(I, a).none, 'no transition')]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        return [('moves along the transition', boolx(I.truth(I.eq(F(I, a[0], 'current'), old))))]


# -- belief runner -------------------------------------------------------------------------------
def tracking(I, **f):
    w = I.world = World(I)
    b = w.belief()
    cur = I.E.fresh_int('current')
    r = runner(I, w, BR, pomdp=w.model, current_belief=b, current=cur)
    I.E.assume(optimal(w, cur, b))
    return r


class BeliefReset(Contract):
    qual = BR + '.reset'
    title = 'GraphPolicyBeliefRunner.reset'
    uses = [Node_()]
    exhaustive = True

    def configs(self):
        return ['without a belief', 'with a belief']

    def args(self, I):
        r = tracking(I)
        return [r, None if self.cfg.startswith('without') else I.world.belief()]

    def writes(self, I, a):
        return [a[0]]

    def modifies(self, I, a):
        I.setattr(a[0], 'current_belief', I.world.start if len(a) < 2 or a[1] is None else a[1])
        I.setattr(a[0], 'current', I.E.fresh_int('current'))

    def post(self, I, a, old, r):
        b = I.world.start if len(a) < 2 or a[1] is None else a[1]
        return [('belief', F(I, a[0], 'current_belief') is b),
                ('node of maximal value', optimal(I.world, F(I, a[0], 'current'), b))]


class BeliefReset_(BeliefReset):
    def bind(self, I, f, args, kw):
        a = BeliefReset.bind(self, I, f, args, kw)
        return a


class BeliefStep(Contract):
    """The belief becomes the posterior of the action of the node and the observation, the node
    one of maximal value for it; when the observation is impossible nothing changes."""
    qual = BR + '.step'
    title = 'GraphPolicyBeliefRunner.step'
    uses = [BeliefUpdate(), BeliefReset_()]

    def args(self, I):
        r = tracking(I)
        self.j = I.E.fresh_int('j')
        I.E.assume(AND(0 <= self.j, self.j < I.world.no))
        return [r, content(I, I.world.Z).get(self.j)]

    def jof(self, I, a):
        """Index of the observation."""
        return self.j

    def weight(self, I, a, b=None):
        w = I.world
        T, O = content(I, w.T), content(I, w.O)
        b = content(I, F(I, a[0], 'current_belief'))
        act = w.ix(intx(F(I, a[0], 'current')))
        j = self.jof(I, a)
        W = lambda t: mul(sum_(I, w.ns, lambda k: mul(b.get(k), T.get(act, k, t))), O.get(act, t, j))
        return W, sum_(I, w.ns, W)

    def capture(self, I, a):
        return self.weight(I, a) + (F(I, a[0], 'current_belief'), F(I, a[0], 'current'))

    def exc(self, I, a):
        return [(L_ + 'Impossible', eqn(self.weight(I, a)[1], 0), 'impossible observation')]

    def writes(self, I, a):
        return [a[0]]

    def modifies(self, I, a):
        I.setattr(a[0], 'current_belief', I.world.belief())
        I.setattr(a[0], 'current', I.E.fresh_int('current'))

    def post(self, I, a, old, r):
        w, b = I.world, F(I, a[0], 'current_belief')
        c = content(I, b)
        return [('length', eqn(c.shape[0], w.ns)),
                ('posterior', ALL(w.ns, lambda t: eqn(c.get(t), div(old[0](t), old[1])))),
                ('node of maximal value', optimal(w, F(I, a[0], 'current'), b))]


# -- trajectory trees ----------------------------------------------------------------------------
JOF = z3.Function('index_of_observation', Z, Z)
BEL = z3.Function('tree_belief', Z, Z, z3.RealSort())
NODE = z3.Function('tree_node', Z, Z)
ACT = z3.Function('tree_action', Z, Z)
FROM = z3.Function('tree_observation', Z, Z)


def view(I, t):
    """(belief, node, action) at the root of a tree."""
    if isinstance(t, RefV):
        return (lambda s: BEL(t.id, intx(s))), NODE(t.id), RefV('Name', ACT(t.id))
    b = content(I, entry(I, t, 'belief'))
    return (lambda s: b.get(s)), entry(I, t, 'node'), entry(I, t, 'action')


def entry(I, t, k):
    return I.getitem(t, k)


def trees(I):
    I.refclasses['Tree'] = RefClass('Tree', {})
    w = I.world
    c = content(I, w.Z)
    I.E.assume(ALL(w.no, lambda j: JOF(intx(c.get(j).id)) == j))


class Rec(BeliefStep):
    """The tree after one more observation, None when the horizon is reached or the observation is
    impossible; the runner is where it was."""
    qual = BR + '._rec_trajectory_tree'
    title = 'GraphPolicyBeliefRunner._rec_trajectory_tree'

    def args(self, I):
        r = tracking(I)
        trees(I)
        j = I.E.fresh_int('j')
        I.E.assume(AND(0 <= j, j < I.world.no))
        return [r, content(I, I.world.Z).get(j), I.E.fresh_int('horizon')]

    def jof(self, I, a):
        return JOF(intx(a[1].id))

    def exc(self, I, a):
        return []

    def writes(self, I, a):
        return [a[0]]

    def modifies(self, I, a):
        pass

    def result(self, I, a, old):
        return I.E.fresh(TOpt(TRef('Tree')), 'subtree')

    def post(self, I, a, old, r):
        w = I.world
        none = r.none if isinstance(r, Opt) else z3.BoolVal(r is None)
        t = r.val if isinstance(r, Opt) else r
        out = [('belief as before', F(I, a[0], 'current_belief') is old[2]),
               ('node as before', eqn(F(I, a[0], 'current'), old[3])),
               ('none when the horizon is reached or the observation is impossible',
                none == OR(lt(a[2], 0), eqn(old[1], 0)))]
        if t is not None:
            b, node, act = view(I, t)
            out += [('belief of the subtree', IMP(NOT(none), I.E.fa_expr(ALL(w.ns, lambda s: eqn(b(s), div(old[0](s), old[1]))))))]
            if isinstance(r, Opt):
                out += [('observation of the subtree', IMP(NOT(none), FROM(t.id) == JOF(intx(a[1].id))))]
        return out


class Rec_(Rec):
    def setup(self, I):
        pass


class Tree(Contract):
    """The tree of the current belief: its node and action, and a subtree for each observation
    that is possible (none for horizon 0); the runner is where it was."""
    qual = BR + '.trajectory_tree'
    title = 'GraphPolicyBeliefRunner.trajectory_tree'
    uses = [Rec_(), Act()]

    def args(self, I):
        r = tracking(I)
        trees(I)
        return [r, I.E.fresh_int('horizon')]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def capture(self, I, a):
        self.r, self.h = a
        w = I.world
        W = lambda j: (lambda t: mul(sum_(I, w.ns, lambda k: mul(content(I, b).get(k), content(I, w.T).get(act, k, t))),
                                     content(I, w.O).get(act, t, j)))
        b, cur = F(I, a[0], 'current_belief'), F(I, a[0], 'current')
        act = w.ix(intx(cur))
        self.old = (b, cur, W, lambda j: sum_(I, w.ns, W(j)))
        return self.old

    def invariant(self, I, st):
        b, cur, W, tot = self.old
        Y = I.read(st.var('$acc').lv)
        out = [('belief as before', F(I, self.r, 'current_belief') is b),
               ('node as before', eqn(F(I, self.r, 'current'), cur)),
               ('one each', eqn(Y.n, st.k))]
        if Y.items == []:
            return out + [(n, True) for n in ('impossible observations', 'their observations', 'their beliefs')]
        none = lambda i: boolx(I.truth(I.eq(Y.get(i), None)))
        some = lambda i, f: IMP(NOT(none(i)), f)
        return out + [
            ('impossible observations', ALL(st.k, lambda i: none(i) == OR(lt(self.h, 1), eqn(tot(i), 0)))),
            ('their observations', ALL(st.k, lambda i: some(i, FROM(intx(tree_id(Y.get(i)))) == i))),
            ('their beliefs', ALL([st.k, I.world.ns], lambda i, s: some(i, eqn(
                BEL(intx(tree_id(Y.get(i))), s), div(W(i)(s), tot(i))))))]

    def writes(self, I, a):
        return [a[0]]

    def modifies(self, I, a):
        pass

    def result(self, I, a, old):
        return RefV('Tree', I.E.fresh_int('tree'))

    def post(self, I, a, old, r):
        w = I.world
        b, node, act = view(I, r)
        oldb = content(I, old[0])
        out = [('runner belief as before', F(I, a[0], 'current_belief') is old[0]),
               ('runner node as before', eqn(F(I, a[0], 'current'), old[1])),
               ('belief', ALL(w.ns, lambda s: eqn(b(s), oldb.get(s)))),
               ('node', eqn(node, old[1])),
               ('action', boolx(I.truth(I.eq(act, content(I, w.acts).get(old[1])))))]
        if isinstance(r, RefV):
            return out
        c, o = [content(I, entry(I, r, k)) for k in ('children', 'observations')]
        possible = lambda j: AND(le(1, a[1]), NOT(eqn(old[3](j), 0)))
        frm = lambda k: FROM(intx(tree_id(c.get(k))))
        zz = content(I, w.Z)
        return out + [
            ('a subtree for each observation listed', eqn(c.n, o.n)),
            ('in order', FA([Z, Z], lambda i, j: AND(0 <= i, i < j, j < intx(c.n)), lambda i, j: frm(i) < frm(j))),
            ('of possible observations', ALL(c.n, lambda k: AND(0 <= frm(k), frm(k) < w.no, possible(frm(k))))),
            ('named', ALL(c.n, lambda k: intx(o.get(k).id) == intx(zz.get(frm(k)).id))),
            ('with the posterior belief', ALL([c.n, w.ns], lambda k, s: eqn(BEL(intx(tree_id(c.get(k))), s),
                                                                          div(old[2](frm(k))(s), old[3](frm(k)))))),
            ('every possible observation', ALL(w.no, lambda j: IMP(possible(j), self.some(I, c, lambda k: frm(k) == j))))]

    def some(self, I, c, p):
        k = z3.Const(I.E.fresh_name('k'), Z)
        return z3.Exists([k], AND(0 <= k, k < intx(c.n), p(k)))


def tree_id(t):
    return (t.val if isinstance(t, Opt) else t).id


class Tree_(Tree):
    def setup(self, I):
        pass


class BeliefStep_(BeliefStep):
    def jof(self, I, a):
        return JOF(intx(a[1].id))


Rec.uses = [BeliefStep_(), BeliefReset_(), Tree_()]


class Starts(Contract):
    """One tree for each possible start state, taken with certainty."""
    qual = BR + '.trajectory_trees_from_starts'
    title = 'GraphPolicyBeliefRunner.trajectory_trees_from_starts'
    uses = [BeliefReset_(), Tree_()]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        r = tracking(I)
        trees(I)
        b = F(I, r, 'current_belief')
        I.setattr(r, 'current_belief', NDV(Frozen(content(I, b)), b.view, b.shape))
        return [r, I.E.fresh_int('horizon')]

    def certain(self, I, n, Y, start):
        """The belief of each tree is that of its start state."""
        return ALL([n, I.world.ns], lambda i, x: eqn(BEL(intx(Y.get(i).id), x), ite(x == intx(start(i)), 1, 0)))

    def invariant(self, I, st):
        Y = I.read(st.var('trees').lv)
        out = [('one tree each', eqn(Y.n, st.k))]
        if Y.items == []:
            return out + [('certain starts', True)]
        return out + [('certain starts', self.certain(I, st.k, Y, st.seq.get))]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        w = I.world
        Y = content(I, entry(I, r, 'graphs'))
        nz, s = I.E.ghost['nonzero'], content(I, w.start)
        k = lambda i: intx(nz.get(i))
        return [('one tree for each possible start', eqn(Y.n, nz.n)),
                ('starts are possible, in order', ALL(nz.n, lambda i: AND(0 <= k(i), k(i) < w.ns, NOT(eqn(s.get(k(i)), 0)),
                                                                 IMP(i + 1 < intx(nz.n), k(i) < k(i + 1))))),
                ('every possible start', ALL(w.ns, lambda x: IMP(NOT(eqn(s.get(x), 0)), AND(
                    0 <= nz.meta['rank'](x), nz.meta['rank'](x) < intx(nz.n), k(nz.meta['rank'](x)) == x)))),
                ('taken with certainty', self.certain(I, Y.n, Y, k))]


class Init(Contract):
    """The graph as given; the initial node is the one given, or one of maximal value."""
    qual = GP + '.__init__'
    title = 'GraphPolicy.__init__'
    uses = [Node_()]
    exhaustive = True

    def configs(self):
        return ['init', 'start', 'init and start', 'neither']

    def args(self, I):
        w = I.world = World(I)
        self.b = w.belief() if 'start' in self.cfg else None
        self.n = w.init if 'init' in self.cfg else None
        return [obj(I, GP), w.acts, w.Z, w.trans, w.V, self.b, self.n]

    def exc(self, I, a):
        return [('ValueError', self.cfg == 'neither', 'no initial node and no start')]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        w = I.world
        f = lambda n: F(I, a[0], n)
        t, v = content(I, f('transitions')), content(I, f('values'))
        t0, v0 = content(I, w.trans), content(I, w.V)
        return [('actions', f('actions') is w.acts), ('observations', f('observations') is w.Z),
                ('transitions', ALL([w.nn, w.no], lambda i, j: boolx(I.truth(I.eq(t.get(i, j), t0.get(i, j)))))),
                ('values', ALL([w.nn, w.ns], lambda i, j: eqn(v.get(i, j), v0.get(i, j)))),
                ('initial node', eqn(f('init'), w.init) if 'init' in self.cfg else optimal(w, f('init'), self.b))]


LEVEL = 'proof'
NOTE = ('A node has the first maximal value, so that the node of a belief is determined by it. Trees are described one level '
        'at a time, with the same contract for the subtrees; termination is by the decreasing horizon, which is tested before '
        'every recursive call.')
CONTRACTS = [Node_(), Next(), Reset(), Act(), Step(), BeliefReset(), BeliefStep(), Rec(), Tree(), Starts(), Init()]
LEMMAS = ['Sums.lean']
