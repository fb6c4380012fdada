"""C01  Belief updates are Bayes' rule."""
from pyvc.contract import *
from pyvc.values import *

POMDP = 'task_models.lib.pomdp:POMDP'


class BeliefUpdate(Contract):
    qual = POMDP + '.belief_update'
    title = 'POMDP.belief_update'

    def args(self, I):
        E = I.E
        na, ns, no = [E.fresh_int(x) for x in ('na', 'ns', 'no')]
        E.assume([na > 0, ns > 0, no > 0])
        T = arr(I, 'T', (na, ns, ns))
        O = arr(I, 'O', (na, ns, no))
        b = arr(I, 'b', (ns,))
        a, o = E.fresh_int('a'), E.fresh_int('o')
        self_ = obj(I, POMDP, T=T, O=O)
        self.dims = (na, ns, no)
        return [self_, a, o, b]

    def view(self, I, a):
        s = a[0]
        T, O = content(I, F(I, s, 'T')), content(I, F(I, s, 'O'))
        b = content(I, a[3])
        ns = T.shape[1]
        w = lambda t: mul(sum_(I, ns, lambda k: mul(b.get(k), T.get(a[1], k, t))), O.get(a[1], t, a[2]))
        tot = sum_(I, ns, w)
        return ns, w, tot, T.shape[0], O.shape[2]

    def pre(self, I, a):
        ns, w, tot, na, no = self.view(I, a)
        return [('action index', AND(le(0, a[1]), lt(a[1], na))),
                ('observation index', AND(le(0, a[2]), lt(a[2], no)))]

    def exc(self, I, a):
        ns, w, tot, na, no = self.view(I, a)
        return [('task_models.lib.pomdp:Impossible', eqn(tot, 0), 'the observation has probability zero')]

    def capture(self, I, a):
        T = content(I, F(I, a[0], 'T'))
        b = content(I, a[3])
        return (T, b)

    def post(self, I, a, old, r):
        ns, w, tot, na, no = self.view(I, a)
        R = content(I, r)
        return [('length', eqn(R.shape[0], ns)),
                ('Bayes', ALL(ns, lambda t: eqn(R.get(t), div(w(t), tot)))),
                ('sums to one', eqn(sum_(I, ns, lambda t: R.get(t)), 1)),
                ('prior unchanged', ALL(ns, lambda t: eqn(content(I, a[3]).get(t), old[1].get(t))))]

    def result(self, I, a, old):
        ns = self.view(I, a)[0]
        return arr(I, I.E.fresh_name('posterior'), (ns,))


class Successor(Contract):
    qual = 'task_models.lib.belief:ArrayBelief.successor'
    title = 'ArrayBelief.successor'
    uses = [BeliefUpdate()]

    def args(self, I):
        self_, a, o, b = self.uses[0].args(I)
        return [obj(I, 'task_models.lib.belief:ArrayBelief', array=b), self_, a, o]

    def swap(self, I, a):
        return [a[1], a[2], a[3], F(I, a[0], 'array')]

    def pre(self, I, a):
        return self.uses[0].pre(I, self.swap(I, a))

    def exc(self, I, a):
        return self.uses[0].exc(I, self.swap(I, a))

    def capture(self, I, a):
        return (content(I, F(I, a[0], 'array')),)

    def post(self, I, a, old, r):
        ns, w, tot, na, no = self.uses[0].view(I, self.swap(I, a))
        R = content(I, F(I, r, 'array'))
        B = content(I, F(I, a[0], 'array'))
        return [('kind', r.cls.name == 'ArrayBelief'),
                ('length', eqn(R.shape[0], ns)),
                ('Bayes', ALL(ns, lambda t: eqn(R.get(t), div(w(t), tot)))),
                ('parent belief unchanged', ALL(ns, lambda t: eqn(B.get(t), old[0].get(t))))]


CONTRACTS = [BeliefUpdate(), Successor()]
LEMMAS = ['Sums.lean']
