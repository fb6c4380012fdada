"""C03  Sampling only produces possible outcomes, drawn from the model's distributions."""
from pyvc.contract import *
from pyvc.values import *

POMDP = 'task_models.lib.pomdp:POMDP'


def model(I, names=False):
    """A symbolic well-formed model: dimensions, matrices, distributions."""
    E = I.E
    na, ns, no = [E.fresh_int(x) for x in ('na', 'ns', 'no')]
    E.assume([na > 0, ns > 0, no > 0])
    T = arr(I, 'T', (na, ns, ns))
    O = arr(I, 'O', (na, ns, no))
    R = arr(I, 'R', (na, ns, ns, no))
    start = arr(I, 'start', (ns,))
    m = obj(I, POMDP, T=T, O=O, R=R, start=start, _s=ns, _a=na, _o=no,
            discount=E.fresh(TReal, 'discount'))
    return m, (na, ns, no)


def valid_model(I, m):
    T, O = content(I, F(I, m, 'T')), content(I, F(I, m, 'O'))
    na, ns, no = O.shape
    return [('transitions not negative', ALL([na, ns, ns], lambda i, j, k: le(0, T.get(i, j, k)))),
            ('observations not negative', ALL([na, ns, no], lambda i, j, k: le(0, O.get(i, j, k)))),
            ('transition rows', ALL([na, ns], lambda i, j: eqn(sum_(I, ns, lambda k: T.get(i, j, k)), 1))),
            ('observation rows', ALL([na, ns], lambda i, j: eqn(sum_(I, no, lambda k: O.get(i, j, k)), 1)))]


def distribution(I, n, p):
    return AND(I.E.fa_expr(ALL(n, lambda k: le(0, p(k)))), eqn(sum_(I, n, p), 1))


def drawn_from(I, i, r, n, p):
    """The i-th random draw gave r and used exactly the distribution p over range(n)."""
    d = I.E.ghost.get('draws', ())
    if len(d) <= i or d[i][2] is None:
        return [('a draw from the distribution', False)]
    q = d[i][2]
    return [('draw %d is the result' % i, eqn(d[i][0], r)),
            ('draw %d range' % i, AND(eqn(d[i][1], n), eqn(q.shape[0], n))),
            ('draw %d distribution' % i, ALL(n, lambda k: eqn(q.get(k), p(k))))]


class SampleTransition(Contract):
    qual = POMDP + '.sample_transition'
    title = 'POMDP.sample_transition'

    def args(self, I):
        m, (na, ns, no) = model(I)
        E = I.E
        a, s = E.fresh_int('a'), E.fresh_int('s')
        self.d = (na, ns, no)
        return [m, a, s]

    def pre(self, I, a):
        T = content(I, F(I, a[0], 'T'))
        return [('action index', AND(le(0, a[1]), lt(a[1], T.shape[0]))),
                ('state index', AND(le(0, a[2]), lt(a[2], T.shape[1])))] + valid_model(I, a[0])

    def post(self, I, a, old, r):
        T, O, R = [content(I, F(I, a[0], x)) for x in 'TOR']
        ns, no = T.shape[1], O.shape[2]
        if not isinstance(r, tuple) or len(r) != 3:
            return [('a triple', False)]
        s1, o, rew = r
        out = [('end state in range', AND(le(0, s1), lt(s1, ns))),
               ('end state possible', lt(0, T.get(a[1], a[2], s1))),
               ('observation in range', AND(le(0, o), lt(o, no))),
               ('observation possible', lt(0, O.get(a[1], s1, o))),
               ('reward of the transition', eqn(rew, R.get(a[1], a[2], s1, o)))]
        if I.verifying == self.qual:
            out += drawn_from(I, 0, s1, ns, lambda k: T.get(a[1], a[2], k))
            out += drawn_from(I, 1, o, no, lambda k: O.get(a[1], s1, k))
        return out

    def result(self, I, a, old):
        E = I.E
        return (E.fresh_int('end'), E.fresh_int('obs'), E.fresh(TReal, 'rew'))


class SampleStart(Contract):
    qual = POMDP + '.sample_start'
    title = 'POMDP.sample_start'

    def args(self, I):
        m, (na, ns, no) = model(I)
        p = content(I, F(I, m, 'start'))
        I.E.assume([distribution(I, ns, p.get)])
        return [m]

    def post(self, I, a, old, r):
        p = content(I, F(I, a[0], 'start'))
        ns = p.shape[0]
        return [('in range', AND(le(0, r), lt(r, ns))),
                ('possible', lt(0, p.get(r)))] + drawn_from(I, 0, r, ns, p.get)


class ArrayBeliefSample(Contract):
    qual = 'task_models.lib.belief:ArrayBelief.sample'
    title = 'ArrayBelief.sample'

    def args(self, I):
        ns = I.E.fresh_int('ns')
        I.E.assume(ns > 0)
        b = arr(I, 'b', (ns,))
        I.E.assume(distribution(I, ns, content(I, b).get))
        return [obj(I, 'task_models.lib.belief:ArrayBelief', array=b)]

    def post(self, I, a, old, r):
        p = content(I, F(I, a[0], 'array'))
        ns = p.shape[0]
        return [('in range', AND(le(0, r), lt(r, ns))),
                ('possible', lt(0, p.get(r)))] + drawn_from(I, 0, r, ns, p.get)


CONTRACTS = [SampleTransition(), SampleStart(), ArrayBeliefSample()]
TRUSTED = ['numpy.random.choice(n, p=p) returns an index of range(n) with p[index] > 0, drawn with probabilities p, '
           'and raises ValueError when p is not a distribution']
ASSUMPTIONS = ['model arrays hold exact probability distributions (the constructor accepts a tolerance of 1e-5)']
LEMMAS = ['Sums.lean']
