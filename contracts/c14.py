"""C14  The integer state encoding stores all features independently."""
from pyvc.contract import *
from pyvc.values import *
from pyvc import bits as B

ST = 'task_models.supportive:_SupportivePOMDPState'
LEMMAS = ['Bits.lean']


def new_state(I, nm=''):
    E = I.E
    no, nb, npr, H = [E.fresh_int(x + nm) for x in ('n_objects', 'n_body', 'n_pref', 'n_htm')]
    E.assume([no >= 0, nb >= 0, npr >= 0, H >= 1])
    return obj(I, ST, _shift_body=no, _shift_pref=no + nb, _shift_htm=no + nb + npr,
               _final_htm=H - 1, s=E.fresh_int('s' + nm))


class V(object):
    """Abstract view: task step and bits."""

    def __init__(self, I, o, s=None):
        self.I, self.o = I, o
        self.body, self.pref, self.htm_, self.final = [
            F(I, o, x) for x in ('_shift_body', '_shift_pref', '_shift_htm', '_final_htm')]
        self.s = F(I, o, 's') if s is None else s
        self.n = self.htm_

    def bit(self, j):
        return B.bit(self.s, j)

    @property
    def htm(self):
        return B.hi(self.s, self.htm_)


def wf(I, o):
    v = V(I, o)
    return [('layout', AND(le(0, v.body), le(v.body, v.pref), le(v.pref, v.htm_), le(0, v.final)))]


def binary(b):
    return OR(eqn(b, 0), eqn(b, 1))


class Base(Contract):
    def args(self, I):
        return [new_state(I)]

    def pre(self, I, a):
        return wf(I, a[0])


class GetBit(Base):
    qual = ST + '._get_bit'
    title = 'state: _get_bit'

    def args(self, I):
        return [new_state(I), I.E.fresh_int('i')]

    def pre(self, I, a):
        return wf(I, a[0]) + [('bit index', le(0, a[1]))]

    def result(self, I, a, old):
        return I.E.fresh(TInt, 'bit')

    def post(self, I, a, old, r):
        return [('bit', eqn(r, V(I, a[0]).bit(a[1]))), ('binary', binary(r))]


class SetBit(Base):
    qual = ST + '._set_bit'
    title = 'state: _set_bit'
    uses = [GetBit()]

    def args(self, I):
        return [new_state(I), I.E.fresh_int('i'), I.E.fresh_int('b')]

    def pre(self, I, a):
        return wf(I, a[0]) + [('bit index', AND(le(0, a[1]), lt(a[1], V(I, a[0]).n))), ('a bit', binary(a[2]))]

    def capture(self, I, a):
        return V(I, a[0])

    def writes(self, I, a):
        return [(a[0], 's')]

    def modifies(self, I, a):
        I.setattr(a[0], 's', I.E.fresh_int('s'))

    def post(self, I, a, old, r):
        v = V(I, a[0])
        if I.verifying == self.qual:
            j = I.E.fresh_int('j')
            for x in (j, a[1]):
                I.E.assume(B.bit_set(old.s, a[1], a[2], x, v.n))
            others = [('other bits kept', IMP(AND(le(0, j), NOT(eqn(j, a[1]))), eqn(v.bit(j), old.bit(j))))]
        else:
            others = [('other bits kept', bits_kept(I, old, v, None, a[1]))]
        return [('bit stored', eqn(v.bit(a[1]), a[2])), ('task step kept', eqn(v.htm, old.htm))] + others


def bits_kept(I, old, v, n, *skip):
    j = z3.Int('bk_j')
    c = [0 <= j] + ([j < intx(n)] if n is not None else []) + [j != intx(x) for x in skip]
    return z3.ForAll([j], z3.Implies(z3.And(*c), v.bit(j) == old.bit(j)), patterns=[B.shr(intx(v.s), j)])


class Htm(Base):
    qual = ST + '.htm'
    title = 'state: htm'

    def call(self, I, a):
        return I.getattr(a[0], 'htm')

    def result(self, I, a, old):
        return I.E.fresh(TInt, 'htm')

    def post(self, I, a, old, r):
        return [('task step', eqn(r, V(I, a[0]).htm))]


class SetHtm(Base):
    qual = ST + '.htm.setter'
    title = 'state: htm.setter'
    uses = [Htm()]

    def args(self, I):
        return [new_state(I), I.E.fresh_int('n')]

    def call(self, I, a):
        I.setattr(a[0], 'htm', a[1])

    def capture(self, I, a):
        return V(I, a[0])

    def writes(self, I, a):
        return [(a[0], 's')]

    def modifies(self, I, a):
        I.setattr(a[0], 's', I.E.fresh_int('s'))

    def post(self, I, a, old, r):
        v = V(I, a[0])
        if I.verifying == self.qual:
            j = I.E.fresh_int('j')
            I.E.assume(B.hi_set(old.s, a[1], v.n, j))
            kept = IMP(AND(le(0, j), lt(j, v.n)), eqn(v.bit(j), old.bit(j)))
        else:
            kept = bits_kept(I, old, v, v.n)
        return [('task step stored', eqn(v.htm, a[1])), ('features kept', kept)]


def accessor(kind, shift, width):
    """has_<kind>(i) / set_<kind>(i, b): the bit at the kind's own offset."""
    class Has(Base):
        qual = '%s.has_%s' % (ST, kind)
        title = 'state: has_' + kind
        uses = [GetBit()]

        def args(self, I):
            return [new_state(I), I.E.fresh_int('i')]

        def pre(self, I, a):
            v = V(I, a[0])
            return wf(I, a[0]) + [('feature index', AND(le(0, a[1]), lt(a[1], width(v))))]

        def result(self, I, a, old):
            return I.E.fresh(TInt, 'has_' + kind)

        def post(self, I, a, old, r):
            v = V(I, a[0])
            return [('own bit', eqn(r, v.bit(add(shift(v), a[1])))), ('binary', binary(r))]

    class Set(Base):
        qual = '%s.set_%s' % (ST, kind)
        title = 'state: set_' + kind
        uses = [SetBit()]

        def args(self, I):
            return [new_state(I), I.E.fresh_int('i'), I.E.fresh_int('b')]

        def pre(self, I, a):
            v = V(I, a[0])
            return wf(I, a[0]) + [('feature index', AND(le(0, a[1]), lt(a[1], width(v)))), ('a bit', binary(a[2]))]

        def capture(self, I, a):
            return V(I, a[0])

        def writes(self, I, a):
            return [(a[0], 's')]

        def modifies(self, I, a):
            I.setattr(a[0], 's', I.E.fresh_int('s'))

        def post(self, I, a, old, r):
            v = V(I, a[0])
            i = add(shift(v), a[1])
            return [('stored', eqn(v.bit(i), a[2])), ('task step kept', eqn(v.htm, old.htm)),
                    ('other features kept', bits_kept(I, old, v, None, i))]
    return Has(), Set()


HasPref, SetPref = accessor('preference', lambda v: v.pref, lambda v: sub(v.htm_, v.pref))
HasBody, SetBody = accessor('body_feature', lambda v: v.body, lambda v: sub(v.pref, v.body))
HasObj, SetObj = accessor('object', lambda v: z3.IntVal(0), lambda v: v.body)


class Sizes(Base):
    """The size properties and is_final, on a state made by the constructor."""
    qual = ST + '.__init__'
    title = 'state: construction, sizes, is_final, to_int'
    uses = [Htm()]

    def args(self, I):
        E = I.E
        ns = [E.fresh_int(x) for x in ('n_htm', 'n_pref', 'n_body', 'n_objects')]
        E.assume([ns[0] >= 1, ns[1] >= 0, ns[2] >= 0, ns[3] >= 0])
        return ns + [E.fresh_int('s')]

    def pre(self, I, a):
        return []

    def call(self, I, a):
        return I.call(I.get_class(ST), a[:4], {'s': a[4]})

    def post(self, I, a, old, o):
        v = V(I, o)
        B_ = I.externals
        g = lambda n: I.getattr(o, n)
        n_states = g('n_states')
        fin = I.call(g('is_final'), [], {})
        H, npr, nb, no = a[:4]
        from pyvc.builtins_ import pow2
        I.E.assume(B.range_iff(v.s, H, v.n))
        return [n for n in wf(I, o)] + [
            ('sizes', AND(eqn(g('n_htm'), H), eqn(g('n_preferences'), npr), eqn(g('n_body_features'), nb),
                          eqn(g('n_objects'), no))),
            ('offsets', AND(eqn(v.body, no), eqn(v.pref, add(no, nb)), eqn(v.htm_, add(no, nb, ) + npr))),
            ('number of states', eqn(n_states, mul(H, pow2(intx(no) + nb + npr)))),
            ('integer', AND(eqn(v.s, a[4]), eqn(I.call(g('to_int'), [], {}), a[4]))),
            ('final state', boolx(I.truth(fin)) == boolx(eqn(v.htm, sub(H, 1)))),
            ('valid integers are those with a valid task step',
             AND(le(0, v.s), lt(v.s, n_states)) == AND(le(0, v.htm), lt(v.htm, H)))]


class Copy(Base):
    qual = ST + '.copy'
    title = 'state: copy'

    def post(self, I, a, old, r):
        v, w = V(I, a[0]), V(I, r)
        return [('same kind', r.cls is a[0].cls), ('another object', I.resolve(r).loc != I.resolve(a[0]).loc),
                ('same integer', eqn(v.s, w.s)),
                ('same layout', AND(eqn(v.body, w.body), eqn(v.pref, w.pref), eqn(v.htm_, w.htm_))),
                ('same final step', eqn(v.final, w.final))]


class Inject(Lemma):
    title = 'lemma: features determine the integer; valid writes stay in range'
    uses = [SetHtm(), SetBit(), SetPref, SetBody]

    def prove(self, I):
        E = I.E
        o = new_state(I)
        v = V(I, o)
        t = E.fresh_int('t')
        w = V(I, o, t)
        E.assume(B.ext(v.s, t, v.n))
        j = z3.Int('ij')
        same = z3.And(v.htm == w.htm, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < intx(v.n)), v.bit(j) == w.bit(j))))
        E.prove('equal features, equal integer', z3.Implies(same, intx(v.s) == t))
        # every feature write keeps the integer within the declared number of states
        ns = I.getattr(o, 'n_states')
        H = add(v.final, 1)
        E.assume(AND(le(0, v.s), lt(v.s, ns)))
        E.assume(B.range_iff(v.s, H, v.n))
        which = E.choose(4)
        i, b = E.fresh_int('i'), E.fresh_int('b')
        E.assume([le(0, i), binary(b)])
        if which == 0:
            E.assume(AND(le(0, b), lt(i, H)))
            I.setattr(o, 'htm', i)
        else:
            kind, wd = [('object', v.body), ('body_feature', sub(v.pref, v.body)),
                        ('preference', sub(v.htm_, v.pref))][which - 1]
            E.assume(lt(i, wd))
            I.call(I.getattr(o, 'set_' + kind), [i, b], {})
        n = V(I, o)
        E.assume(B.range_iff(n.s, H, n.n))
        E.prove('writes stay within the number of states', AND(le(0, n.s), lt(n.s, ns)))


def block(I, arr_, m, h):
    from pyvc.builtins_ import pow2
    P = pow2(intx(m))
    return sum_(I, P, lambda k: arr_.get(add(mul(h, P), k)))


class Quotient(Base):
    qual = ST + '.belief_quotient'
    title = 'state: belief_quotient'

    def args(self, I):
        o = new_state(I)
        n = I.E.fresh_int('len')
        I.E.assume(n >= 0)
        return [o, arr(I, 'belief', (n,))]

    def exc(self, I, a):
        from pyvc.builtins_ import pow2
        v = V(I, a[0])
        return [('AssertionError', NOT(eqn(content(I, a[1]).shape[0],
                                           mul(add(v.final, 1), pow2(intx(v.n))))), 'wrong length')]

    def post(self, I, a, old, r):
        v = V(I, a[0])
        R, A = content(I, r), content(I, a[1])
        h, k, s = I.E.fresh_int('h'), I.E.fresh_int('k'), I.E.fresh_int('s')
        from pyvc.builtins_ import pow2
        P = pow2(intx(v.n))
        I.E.assume([B.split_hi(h, k, v.n), B.decomp(s, v.n)])
        return [('one entry per task step', AND(len(R.shape) == 1, eqn(R.shape[0], add(v.final, 1)))),
                ('sum of the step\'s block', ALL(R.shape[0], lambda h: eqn(R.get(h), block(I, A, v.n, h)))),
                ('a block holds states of its step only', IMP(AND(le(0, k), lt(k, P)),
                                                              eqn(B.hi(add(mul(h, P), k), v.n), h))),
                ('every state of a step is in its block',
                 AND(le(0, sub(s, mul(B.hi(s, v.n), P))), lt(sub(s, mul(B.hi(s, v.n), P)), P)))]


class Preferences(Base):
    """Symbolic steps, objects and bodies; the number of preferences is enumerated."""
    qual = ST + '.belief_preferences'
    title = 'state: belief_preferences'
    bound_text = '1, 2 or 3 preferences (the model has one)'

    def configs(self):
        return [1, 2, 3]

    def args(self, I):
        E = I.E
        o = new_state(I)
        E.assume(eqn(sub(F(I, o, '_shift_htm'), F(I, o, '_shift_pref')), self.cfg))
        I.setattr(o, '_shift_htm', F(I, o, '_shift_pref') + self.cfg)
        n = E.fresh_int('len')
        E.assume(n >= 0)
        return [o, arr(I, 'belief', (n,))]

    def exc(self, I, a):
        from pyvc.builtins_ import pow2
        v = V(I, a[0])
        return [('AssertionError', NOT(eqn(content(I, a[1]).shape[0], mul(mul(
            add(v.final, 1), 2 ** self.cfg), pow2(intx(v.pref))))), 'wrong length')]

    def post(self, I, a, old, r):
        from pyvc.builtins_ import pow2
        v = V(I, a[0])
        R, A = content(I, r), content(I, a[1])
        m = self.cfg
        P = pow2(intx(v.pref))
        E = I.E
        out = [('one entry per preference', eqn(R.n, m))]
        H = add(v.final, 1)
        h, k = E.fresh_int('h'), E.fresh_int('k')
        E.assume([B.split_hi(0, k, v.pref)])
        for i in range(m):
            j = m - 1 - i      # most significant preference first
            pats = [p for p in range(2 ** m) if (p >> j) & 1]
            tot = 0
            for p in pats:
                tot = add(tot, sum_(I, H, lambda h_: sum_(I, P, lambda q: A.get(
                    add(mul(add(mul(h_, 2 ** m), p), P), q)))))
            out.append(('entry %d: mass of the states with preference %d' % (i, j), eqn(R.get(i), tot)))
            for p in range(2 ** m):
                st = add(mul(add(mul(h, 2 ** m), p), P), k)
                E.assume([B.split_hi(add(mul(h, 2 ** m), p), k, v.pref), B.shift_shift(st, v.pref, j)])
                out.append(('pattern %d has preference %d: %s' % (p, j, p in pats), IMP(
                    AND(le(0, k), lt(k, P)), eqn(B.bit(st, add(v.pref, j)), 1 if p in pats else 0))))
        return out


class Changes(Base):
    """random_object_changes / random_preference_changes: exactly the features of that kind
    whose draw says so are flipped, everything else is kept."""
    uses = [GetBit(), SetBit(), HasPref, SetPref]

    def __init__(self, kind, off, width):
        self.off, self.width = off, width
        self.qual = '%s.random_%s_changes' % (ST, kind)
        self.title = 'state: random_%s_changes' % kind

    def setup(self, I):
        I.invariants = [self.invariant]

    def args(self, I):
        o = new_state(I)
        self.ctx = (o, V(I, o))
        return [o, I.E.fresh(TReal, 'p')]

    def pre(self, I, a):
        return wf(I, a[0]) + [('a probability', AND(le(0, a[1]), le(a[1], 1)))]

    def flips(self, I, old, v, changed):
        j = z3.Int('fl_j')
        off = intx(self.off(old))
        w = intx(self.width(old))
        inside = z3.And(off <= j, j < off + w)
        body = v.bit(j) == z3.If(z3.And(inside, boolx(changed(j - off))), 1 - old.bit(j), old.bit(j))
        return z3.ForAll([j], z3.Implies(0 <= j, body), patterns=[B.shr(intx(v.s), j)])

    def invariant(self, I, st):
        f = I.E.ghost.get('nonzero')
        o, old = self.ctx
        if f is None or not f.meta:
            return None
        v = V(I, o)
        t, rank = f.meta['test'], f.meta['rank']
        return [('bits', self.flips(I, old, v, lambda j: AND(t.get(j), lt(rank(j), st.k)))),
                ('step', eqn(v.htm, old.htm))]

    def capture(self, I, a):
        return V(I, a[0])

    def writes(self, I, a):
        return [(a[0], 's')]

    def modifies(self, I, a):
        I.setattr(a[0], 's', I.E.fresh_int('s'))

    def post(self, I, a, old, r):
        v = V(I, a[0])
        if I.verifying == self.qual:
            f = I.E.ghost.get('nonzero')
            if f is None:
                return [('one draw per feature', False)]
            t = f.meta['test']
            kept = []
        else:
            d = z3.Function(I.E.fresh_name('changed'), z3.IntSort(), z3.BoolSort())
            t = Seq(self.width(old), lambda k: d(intx(k)))
        return [('one draw per feature', eqn(t.n, self.width(old))),
                ('flipped features', self.flips(I, old, v, t.get)), ('task step kept', eqn(v.htm, old.htm))]


ChangeObj = Changes('object', lambda v: 0, lambda v: v.body)
ChangePref = Changes('preference', lambda v: v.pref, lambda v: sub(v.htm_, v.pref))

CONTRACTS = [GetBit(), SetBit(), Htm(), SetHtm(), HasPref, SetPref, HasBody, SetBody, HasObj, SetObj,
             Sizes(), Copy(), Inject(), Quotient(), Preferences(), ChangeObj, ChangePref]
