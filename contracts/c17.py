"""C17  Node values are the (recency-weighted) means of the recorded returns."""
from pyvc.contract import *
from pyvc.values import *

MOD = 'task_models.lib.pomcp:'
AVG = MOD + '_ValueAverage'


def average(I, nm='', alpha=None):
    """A symbolic average: n >= 0 returns recorded; nothing recorded means total 0."""
    E = I.E
    n = E.fresh_int('n' + nm)
    tot = E.fresh(TReal, 'total' + nm)
    w = E.fresh(TReal, 'alpha' + nm) if alpha is None else alpha
    return obj(I, AVG, n_simulations=n, total_value=tot, alpha=w)


def wf(I, o):
    n, t, w = F(I, o, 'n_simulations'), F(I, o, 'total_value'), F(I, o, 'alpha')
    return [('count not negative', le(0, n)), ('empty average', IMP(eqn(n, 0), eqn(t, 0))),
            ('weight', AND(le(0, w), le(w, 1)))]


def val(I, st):
    n, t = st
    return ite(boolx(eqn(n, 0)), z3.RealVal(0), real(div(t, ite(boolx(eqn(n, 0)), z3.RealVal(1), real(n)))))


def state(I, o):
    return F(I, o, 'n_simulations'), F(I, o, 'total_value')


class Init(Contract):
    qual = AVG + '.__init__'
    title = '_ValueAverage.__init__'

    def args(self, I):
        return [obj(I, AVG), I.E.fresh(TReal, 'alpha')]

    def exc(self, I, a):
        return [('AssertionError', NOT(AND(le(0, a[1]), le(a[1], 1))), 'the weight is not in [0, 1]')]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        return [('count', eqn(F(I, a[0], 'n_simulations'), 0)),
                ('total', eqn(F(I, a[0], 'total_value'), 0)),
                ('weight', eqn(F(I, a[0], 'alpha'), a[1]))]


class Value(Contract):
    qual = AVG + '.value'
    title = '_ValueAverage.value'

    def args(self, I):
        return [average(I)]

    def pre(self, I, a):
        return wf(I, a[0])

    def call(self, I, a):
        return I.getattr(a[0], 'value')

    def result(self, I, a, old):
        return I.E.fresh(TReal, 'value')

    def post(self, I, a, old, r):
        return [('total over count', eqn(r, val(I, state(I, a[0]))))]


def updated(I, old, new, w, v):
    """Postcondition of recording v: count + 1 and the recency-weighted mean."""
    n = old[0]
    before, after = val(I, old), val(I, new)
    n1 = real(add(n, 1))
    return [('one more return', eqn(new[0], add(n, 1))),
            ('weighted mean', eqn(after, add(mul(sub(1, w), div(add(mul(n, before), v), n1)), mul(w, v)))),
            ('plain mean without recency weight', IMP(eqn(w, 0), eqn(mul(n1, after), add(mul(n, before), v)))),
            ('latest return only with full weight', IMP(eqn(w, 1), eqn(after, v)))]


def between(I, old, new, v):
    lo, hi = z3.Reals('lo hi')
    inside = lambda x: AND(le(lo, x), le(x, hi))
    g = IMP(AND(inside(v), OR(eqn(old[0], 0), inside(val(I, old)))), inside(val(I, new)))
    return [('value stays between the smallest and largest return', g)]


class Update(Contract):
    qual = AVG + '.update'
    title = '_ValueAverage.update'

    def args(self, I):
        return [average(I), I.E.fresh(TReal, 'v')]

    def pre(self, I, a):
        return wf(I, a[0])

    def capture(self, I, a):
        return state(I, a[0])

    def writes(self, I, a):
        return [(a[0], 'n_simulations'), (a[0], 'total_value')]

    def modifies(self, I, a):
        o = I.resolve(a[0])
        I.setattr(o, 'n_simulations', I.E.fresh_int('n_'))
        I.setattr(o, 'total_value', I.E.fresh(TReal, 'total_'))

    def post(self, I, a, old, r):
        new = state(I, a[0])
        w = F(I, a[0], 'alpha')
        out = updated(I, old, new, w, a[1])
        if I.verifying == self.qual:
            out += between(I, old, new, a[1])
        return out + [('still well formed: ' + n, g) for n, g in wf(I, a[0])]


class NodeUpdate(Contract):
    qual = MOD + '_SearchNode.update'
    title = '_SearchNode.update'
    uses = [Update()]

    def args(self, I):
        return [obj(I, MOD + '_SearchNode', _avg=average(I), children=mkdict(I)), I.E.fresh(TReal, 'v')]

    def pre(self, I, a):
        return wf(I, F(I, a[0], '_avg'))

    def capture(self, I, a):
        return state(I, F(I, a[0], '_avg'))

    def writes(self, I, a):
        o = F(I, a[0], '_avg')
        return [(o, 'n_simulations'), (o, 'total_value')]

    def post(self, I, a, old, r):
        o = F(I, a[0], '_avg')
        return updated(I, old, state(I, o), F(I, o, 'alpha'), a[1]) + \
            [('still well formed: ' + n, g) for n, g in wf(I, o)]


def mkdict(I):
    return I.new_cont('dict', DictC(items=[]))


class NodeRead(Contract):
    """value and n_simulations of a node are those of its average."""
    qual = MOD + '_SearchNode.n_simulations'
    title = '_SearchNode.value / n_simulations'
    uses = [Value()]

    def args(self, I):
        return [obj(I, MOD + '_SearchNode', _avg=average(I), children=mkdict(I))]

    def pre(self, I, a):
        return wf(I, F(I, a[0], '_avg'))

    def call(self, I, a):
        return (I.getattr(a[0], 'n_simulations'), I.getattr(a[0], 'value'))

    def post(self, I, a, old, r):
        st = state(I, F(I, a[0], '_avg'))
        return [('count', eqn(r[0], st[0])), ('value', eqn(r[1], val(I, st)))]


class NodeInit(Contract):
    """Every node starts with its own empty average of the given weight."""
    qual = MOD + '_SearchNode.__init__'
    title = 'node construction'
    uses = [Init()]

    def args(self, I):
        return [I.E.fresh(TReal, 'alpha')]

    def pre(self, I, a):
        return [('weight', AND(le(0, a[0]), le(a[0], 1)))]

    def call(self, I, a):
        c = I.get_class(MOD + '_SearchActionNode')
        d = I.get_class(MOD + '_SearchObservationNode')
        x = I.call(c, [], {'alpha': a[0]})
        y = I.call(c, [], {'alpha': a[0]})
        k = I.E.fresh_int('n_actions')
        I.E.assume(k >= 0)
        w = I.call(d, [None, k], {'alpha': a[0]})
        return x, y, w, k

    def post(self, I, a, old, r):
        avs = [I.resolve(F(I, x, '_avg')) for x in r[:3]]
        out = [('own average', len({x.loc for x in avs}) == 3)]
        for i, x in enumerate(avs):
            out += [('empty %d' % i, AND(eqn(F(I, x, 'n_simulations'), 0), eqn(F(I, x, 'total_value'), 0))),
                    ('weight %d' % i, eqn(F(I, x, 'alpha'), a[0]))]
        ch = content(I, F(I, r[2], 'children'))
        out += [('one child slot per action', eqn(ch.n, r[3])),
                ('no child yet', ALL(ch.n, lambda k: is_none(ch.get(k))))]
        out += [('children weight', eqn(F(I, r[2], '_children_alpha'), a[0]))]
        return out


def is_none(v):
    if isinstance(v, Opt):
        return v.none
    return v is None


class Init_(Init):
    def modifies(self, I, a):
        o = I.resolve(a[0])
        I.setattr(o, 'n_simulations', I.E.fresh_int('n_'))
        I.setattr(o, 'total_value', I.E.fresh(TReal, 'total_'))
        I.setattr(o, 'alpha', a[1])


NodeInit.uses = [Init_()]


class Mean(Lemma):
    """Induction over the history: with no recency weight the value is the mean of all
    returns, and with any weight it lies between the smallest and the largest one."""
    title = 'lemma: value of a whole history'
    uses = [Update(), Init_()]

    def prove(self, I):
        E = I.E
        # base: a new average represents the empty history
        o = I.call(I.get_class(AVG), [], {'alpha': 0})
        n, t = state(I, o)
        E.prove('empty history', AND(eqn(n, 0), eqn(t, 0)))
        # step: history v[0..m-1] recorded with mean value, v[m] is recorded next
        m = E.fresh_int('m')
        E.assume(m >= 0)
        v = z3.Function('v', z3.IntSort(), z3.RealSort())
        o = average(I, 'h', alpha=0)
        E.assume([g for _, g in wf(I, o)])
        hist = lambda k: (eqn(F(I, o, 'n_simulations'), k),
                          eqn(mul(k, val(I, state(I, o))), sum_(I, k, lambda i: v(intx(i)))))
        E.assume(list(hist(m)))
        I.call(I.getattr(o, 'update'), [v(m)], {})
        a, b = hist(add(m, 1))
        E.prove('count of the history', a)
        E.prove('mean of the history', b)


CONTRACTS = [Init_(), Value(), Update(), NodeUpdate(), NodeRead(), NodeInit(), Mean()]
LEMMAS = ['Sums.lean']
