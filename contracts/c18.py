"""C18  Actions are selected by UCT, unexplored actions first."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *
from contracts import c17

MOD = 'task_models.lib.pomcp:'
LOG = z3.Function('np_log', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('np_sqrt', z3.RealSort(), z3.RealSort())


MEAN = z3.Function('mean', z3.IntSort(), z3.RealSort(), z3.RealSort())


class OpaqueValue(c17.Value):
    """The verified contract of value, with the function total/count hidden behind a
    symbol (nothing here depends on what it computes)."""

    def post(self, I, a, old, r):
        n, t = c17.state(I, a[0])
        return [('mean', eqn(r, MEAN(intx(n), real(t))))]


def classes(I):
    I.refclasses['Avg'] = RefClass('Avg', {'n_simulations': TInt, 'total_value': TReal, 'alpha': TReal},
                                   I.get_class(MOD + '_ValueAverage'))
    I.refclasses['Act'] = RefClass('Act', {'_avg': TRef('Avg')}, I.get_class(MOD + '_SearchActionNode'))


def node(I):
    """An observation node with any number of action children, each possibly missing."""
    E = I.E
    n = E.fresh_int('n_actions')
    E.assume(n > 0)
    return obj(I, MOD + '_SearchObservationNode', _avg=c17.average(I), belief=None,
               children=lst(I, 'child', TOpt(TRef('Act')), n), _children_alpha=E.fresh(TReal, 'alpha'))


def st(I, child):
    a = F(I, child, '_avg')
    return F(I, a, 'n_simulations'), F(I, a, 'total_value')


class View(object):
    def __init__(self, I, nd):
        self.I = I
        self.ch = content(I, F(I, nd, 'children'))
        self.n = self.ch.n
        self.N = c17.state(I, F(I, nd, '_avg'))[0]

    def unexplored(self, k):
        c = self.ch.get(k)
        return OR(c.none, eqn(st(self.I, c.val)[0], 0))

    def value(self, k):
        n, t = st(self.I, self.ch.get(k).val)
        return MEAN(intx(n), real(t))

    def visits(self, k):
        return st(self.I, self.ch.get(k).val)[0]

    def bound(self, k, c):
        m = self.visits(k)
        m = ite(boolx(eqn(m, 0)), z3.RealVal(1), real(m))
        return add(self.value(k), mul(c, SQRT(real(div(LOG(real(self.N)), m)))))

    def wf(self):
        I = self.I
        return [('children counts', ALL(self.n, lambda k: OR(self.ch.get(k).none, AND(
            le(0, self.visits(k)), IMP(eqn(self.visits(k), 0), eqn(st(I, self.ch.get(k).val)[1], 0)),
            le(0, F(I, F(I, self.ch.get(k).val, '_avg'), 'alpha')), le(F(I, F(I, self.ch.get(k).val, '_avg'), 'alpha'), 1)))))]


def number(x, y):
    if isinstance(x, NanV):
        return AND(NOT(x.isnan), eqn(x.val, y))
    return eqn(x, y)


class NotInit(Contract):
    qual = MOD + '_SearchObservationNode._not_init_children'
    title = '_SearchObservationNode._not_init_children'

    def setup(self, I):
        classes(I)

    def args(self, I):
        return [node(I)]

    def post(self, I, a, old, r):
        v = View(I, a[0])
        R = content(I, r)
        j = z3.Int('j')
        return [('lists unexplored actions only', ALL(R.n, lambda k: AND(
            le(0, R.get(k)), lt(R.get(k), v.n), v.unexplored(R.get(k))))),
            ('lists every unexplored action', ALL(v.n, lambda k: IMP(
                v.unexplored(k), z3.Exists([j], z3.And(0 <= j, j < intx(R.n), intx(R.get(j)) == intx(k))))))]


class Augmented(Contract):
    qual = MOD + '_SearchObservationNode.augmented_values'
    title = '_SearchObservationNode.augmented_values'
    uses = [OpaqueValue()]

    def setup(self, I):
        classes(I)

    def args(self, I):
        return [node(I), I.E.fresh(TReal, 'exploration'), I.E.fresh(TBool, 'relative')]

    def pre(self, I, a):
        v = View(I, a[0])
        return v.wf() + c17.wf(I, F(I, a[0], '_avg')) + [
            ('visited', lt(0, v.N)), ('exploration', le(0, a[1])),
            ('every child explored', ALL(v.n, lambda k: NOT(v.unexplored(k))))]

    def coefficient(self, I, v, c, rel, goal):
        """goal(c) for the effective exploration constant."""
        plain = IMP(NOT(AND(rel, lt(0, c))), goal(c))
        i, j = z3.Ints('imax imin')
        ext = lambda f: I.E.fa_expr(f)
        hi = ext(ALL(v.n, lambda k: le(v.value(k), v.value(i))))
        lo = ext(ALL(v.n, lambda k: le(v.value(j), v.value(k))))
        rng = AND(le(0, i), lt(i, v.n), le(0, j), lt(j, v.n))
        spread = mul(c, sub(v.value(i), v.value(j)))
        return [('constant exploration', plain),
                ('exploration relative to the spread of values',
                 IMP(AND(rel, lt(0, c), rng, hi, lo), goal(spread)))]

    def post(self, I, a, old, r):
        v = View(I, a[0])
        R = content(I, r)
        goal = lambda c: I.E.fa_expr(ALL(v.n, lambda k: number(R.get(k), v.bound(k, c))))
        return [('one value per action', eqn(R.n, v.n))] + \
            self.coefficient(I, v, a[1], a[2], goal)


class GetBest(Contract):
    qual = MOD + '_SearchObservationNode.get_best_action'
    title = '_SearchObservationNode.get_best_action'
    uses = [OpaqueValue()]

    def setup(self, I):
        classes(I)

    def args(self, I):
        return [node(I), I.E.fresh(TReal, 'exploration'), I.E.fresh(TBool, 'relative')]

    def pre(self, I, a):
        v = View(I, a[0])
        every = I.E.fa_expr(ALL(v.n, lambda k: NOT(v.unexplored(k))))
        return v.wf() + c17.wf(I, F(I, a[0], '_avg')) + [
            ('exploration', le(0, a[1])),
            ('visited once its actions are', IMP(every, lt(0, v.N)))]

    def result(self, I, a, old):
        return I.E.fresh_int('action')

    def post(self, I, a, old, r):
        v = View(I, a[0])
        if len(a) < 3:
            a = list(a) + [0, False][len(a) - 1:]
        every = I.E.fa_expr(ALL(v.n, lambda k: NOT(v.unexplored(k))))
        out = [('an action index', AND(le(0, r), lt(r, v.n))),
               ('unexplored actions first', OR(every, v.unexplored(r)))]
        goal = lambda c: I.E.fa_expr(ALL(v.n, lambda k: le(v.bound(k, c), v.bound(r, c))))
        for nm, g in Augmented().coefficient(I, v, a[1], a[2], goal):
            out.append(('largest upper bound, ' + nm, IMP(every, g)))
        return out


CONTRACTS = [NotInit(), Augmented(), GetBest()]
TRUSTED = ['numpy.log and numpy.sqrt as uninterpreted real functions (argmax compares the same terms)']
