"""C15  Simulated transitions of the supportive model follow the task rules."""
from .supp import *
from .c14 import (ST, V, wf, binary, bits_kept, Htm, SetHtm, HasPref, SetPref, HasObj, SetObj, Changes, GetBit, SetBit)
from . import c16
from pyvc import bits as B
LEMMAS = ['Bits.lean']

RW = ('r_subtask', 'r_final', 'r_preference', 'cost_get', 'cost_intrinsic', 'cost_hold')
PR = ('p_fail', 'p_consume_all', 'p_changed_by_human', 'p_change_preference')


def a_model(I):
    """Any supportive model whose tables are consistent (C13, C16)."""
    E = I.E
    nodes = leaves(I)
    m = obj(I, MODEL, htm_nodes=nodes, htm_succs=lst(I, 'succs', TList(TInt)), htm_init=lst(I, 'init', TInt),
            htm_conditions=lst(I, 'conditions', TList(TTup(TInt, TInt))),
            objects=lst(I, 'objects', TStr), clearable=lst(I, 'clearable', TBool),
            preferences=lst(I, 'preferences', TStr), p_preferences=lst(I, 'p_preferences', TReal),
            _a_bring=lst(I, 'a_bring', TOpt(TInt)), _a_clear=lst(I, 'a_clear', TOpt(TInt)), _skip_to_a_obj=4,
            n_simulator_calls=E.fresh_int('calls'), reward_independent_preference=E.fresh(TBool, 'independent'),
            **{x: E.fresh(TReal, x) for x in RW + PR})
    return m


def C(I, m, x):
    return content(I, F(I, m, x))


def n_nodes(I, m):
    return C(I, m, 'htm_nodes').n


def consistent(I, m):
    n = n_nodes(I, m)
    su, co, ob = C(I, m, 'htm_succs'), C(I, m, 'htm_conditions'), C(I, m, 'objects')
    npr = C(I, m, 'preferences').n
    ini = C(I, m, 'htm_init')
    S = lambda i: content(I, su.get(i))
    K = lambda i: content(I, co.get(i))
    Z = z3.IntSort()
    return [
        ('one successor and condition list per step', AND(eqn(su.n, n), eqn(co.n, n))),
        ('one flag per object', eqn(C(I, m, 'clearable').n, ob.n)),
        ('some preference', le(1, npr)), ('one probability per preference', eqn(C(I, m, 'p_preferences').n, npr)),
        ('initial steps', AND(lt(0, ini.n))), ('initial steps are steps', ALL(ini.n, lambda k: AND(
            le(0, ini.get(k)), lt(ini.get(k), n)))),
        ('some successor', ALL(n, lambda i: lt(0, S(i).n))),
        ('successors are steps or cleaning', FA([Z, Z], lambda i, j: AND(le(0, i), lt(i, n), le(0, j), lt(j, S(i).n)),
                                                lambda i, j: AND(le(0, S(i).get(j)), le(S(i).get(j), n)))),
        ('conditions are about objects', FA([Z, Z], lambda i, j: AND(le(0, i), lt(i, n), le(0, j), lt(j, K(i).n)),
                                            lambda i, j: AND(le(0, K(i).get(j)[1]), lt(K(i).get(j)[1], ob.n)))),
        ('probabilities', AND(*[AND(le(0, F(I, m, x)), le(F(I, m, x), 1)) for x in PR])),
    ] + tables(I, m)


def a_state(I, m, nm='s'):
    """A state of the model."""
    E = I.E
    no, npr, n = C(I, m, 'objects').n, C(I, m, 'preferences').n, n_nodes(I, m)
    E.assume([no >= 0, npr >= 0, n >= 0])
    return obj(I, ST, _shift_body=no, _shift_pref=no + 1, _shift_htm=no + 1 + npr, _final_htm=n + 1,
               s=E.fresh_int(nm))


class View(V):
    """The features of a state number of the model."""

    def __init__(self, I, m, s):
        no, npr = C(I, m, 'objects').n, C(I, m, 'preferences').n
        self.body, self.pref, self.htm_, self.s = no, add(no, 1), add(add(no, 1), npr), s
        self.n = self.htm_

    def object_bits(self, o):
        return self.bit(o)


def of_model(I, m, o):
    v, w = V(I, o), View(I, m, 0)
    return ('a state of the model', AND(eqn(v.body, w.body), eqn(v.pref, w.pref), eqn(v.htm_, w.htm_),
                                        eqn(v.final, add(n_nodes(I, m), 1))))


def after_condition(I, c, o, s, t, v):
    """Object o from state s to t under a condition of kind c: consumed, there, or either."""
    b0, b = v.__class__ and B.bit(s, o), B.bit(t, o)
    K = lambda x: eqn(c, kind(I, x))
    new = AND(IMP(K('CONSUMES'), eqn(b, 0)), IMP(K('USES'), eqn(b, 1)), IMP(K('CONSUMES_SOME'), binary(b)),
              IMP(NOT(OR(K('CONSUMES'), K('USES'), K('CONSUMES_SOME'))), eqn(b, b0)))
    return AND(new, eqn(B.hi(t, v.htm_), B.hi(s, v.htm_)))


def others_kept(s, t, o):
    j = z3.Int('ok_j')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j != intx(o)), B.bit(t, j) == B.bit(s, j)),
                     patterns=[B.shr(intx(t), j)] if simple(t) else [])


def simple(t):
    return z3.is_const(intx(t)) or intx(t).decl().kind() == z3.Z3_OP_UNINTERPRETED


def condition_reward(I, m, s, o):
    return ite(boolx(eqn(B.bit(s, o), 0)), sub(0, F(I, m, 'cost_get')), z3.RealVal(0))


class Condition(Contract):
    qual = MODEL + '._update_for_condition'
    title = 'SupportivePOMDP._update_for_condition'
    uses = [GetBit(), SetBit()]

    def args(self, I):
        m = a_model(I)
        return [m, a_state(I, m), I.E.fresh_int('c'), I.E.fresh_int('o')]

    def pre(self, I, a):
        return wf(I, a[1]) + [of_model(I, a[0], a[1]), ('an object', AND(le(0, a[3]), lt(a[3], C(I, a[0], 'objects').n)))]

    def capture(self, I, a):
        return F(I, a[1], 's')

    def writes(self, I, a):
        return [(a[1], 's')]

    def modifies(self, I, a):
        # names the outcome of the k-th condition T(k+1) (once per iteration)
        E = I.E
        T = E.ghost.get('_T')
        if T is not None and I.loop_ks and str(I.loop_ks[-1]) not in T[1]:
            k = I.loop_ks[-1]
            E.ghost['_T'] = (T[0], T[1] + (str(k),))
            I.setattr(a[1], 's', T[0](intx(add(k, 1))))
        else:
            I.setattr(a[1], 's', E.fresh_int('s'))

    def result(self, I, a, old):
        return I.E.fresh(TReal, 'r')

    def post(self, I, a, old, r):
        v, t = V(I, a[1]), F(I, a[1], 's')
        return [('object', after_condition(I, a[2], a[3], old, t, v)), ('others kept', others_kept(old, t, a[3])),
                ('reward', eqn(r, condition_reward(I, a[0], old, a[3])))]


def chain(I, m, node, T, n):
    """T(0) .. T(n): the states after the first conditions of the step."""
    K = content(I, C(I, m, 'htm_conditions').get(node))
    v = View(I, m, 0)
    Z = z3.IntSort()
    rng = lambda j: AND(le(0, j), lt(j, n))
    return [('each condition in turn', FA([Z], rng, lambda j: after_condition(
        I, K.get(j)[0], K.get(j)[1], T(intx(j)), T(intx(j) + 1), v))),
        ('only its object', FA([Z, Z], lambda j, b: AND(rng(j), le(0, b), NOT(eqn(b, K.get(j)[1]))),
                               lambda j, b: B.bit(T(intx(j) + 1), b) == B.bit(T(intx(j)), b))),
        ('features kept', FA([Z, Z], lambda j, b: AND(le(0, j), le(j, n), le(v.body, b)),
                             lambda j, b: B.bit(T(intx(j)), b) == B.bit(T(0), b))),
        ('position kept', FA([Z], lambda j: AND(le(0, j), le(j, n)), lambda j: eqn(
            B.hi(T(intx(j)), v.htm_), B.hi(T(0), v.htm_))))]


def named(fn, first):
    """T(0) is the given state, T(k+1) the state after the k-th condition."""
    def T(j):
        j = z3.simplify(intx(j))
        if z3.is_int_value(j):
            return intx(first) if j.as_long() == 0 else fn(j)
        if z3.is_add(j) and z3.is_int_value(j.arg(0)) and j.arg(0).as_long() == 1:
            return fn(j)              # only used at j >= 0
        return z3.If(j == 0, intx(first), fn(j))
    return T


class Transition(Contract):
    """The step ends: one of its declared successors is next, its conditions apply in turn."""
    qual = MODEL + '._update_for_transition'
    title = 'SupportivePOMDP._update_for_transition'
    uses = [SetHtm(), Condition()]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True
        self.fn = z3.Function(I.E.fresh_name('T'), z3.IntSort(), z3.IntSort())
        self.T = None
        I.E.ghost['_T'] = (self.fn, ())

    def args(self, I):
        m = a_model(I)
        return [m, a_state(I, m), I.E.fresh_int('node')]

    def pre(self, I, a):
        self.m, self.s = a[0], a[1]
        return consistent(I, a[0]) + wf(I, a[1]) + [of_model(I, a[0], a[1]), (
            'a step', AND(le(0, a[2]), lt(a[2], n_nodes(I, a[0]))))]

    def capture(self, I, a):
        self.node = a[2]
        return F(I, a[1], 's')

    def invariant(self, I, st):
        m = self.m
        K = content(I, C(I, m, 'htm_conditions').get(self.node))
        acc = content(I, st.var('$acc'))
        s = F(I, self.s, 's')
        T = self.T = named(self.fn, st.entry_field(self.s, 's'))
        return [('state', eqn(s, T(intx(st.k)))), ('one reward each', eqn(acc.n, st.k)),
                ('rewards', ALL(st.k, lambda j: eqn(acc.get(j), condition_reward(I, m, T(intx(j)), K.get(j)[1]))))
                ] + chain(I, m, self.node, T, st.k)

    def writes(self, I, a):
        return [(a[1], 's')]

    def modifies(self, I, a):
        self.pre_s = F(I, a[1], 's')
        I.setattr(a[1], 's', I.E.fresh_int('s'))

    def result(self, I, a, old):
        r = I.E.fresh(TReal, 'step_reward')
        I.E.ghost['_step'] = I.E.ghost.get('_step', ()) + ((a[2], old, F(I, a[1], 's'), r),)
        return r

    def post(self, I, a, old, r):
        m = a[0]
        if I.verifying == self.qual:
            T = self.T
            if T is None:
                return [('conditions applied in turn', False)]
        else:
            T = z3.Function(I.E.fresh_name('T'), z3.IntSort(), z3.IntSort())
        K = content(I, C(I, m, 'htm_conditions').get(a[2]))
        S = content(I, C(I, m, 'htm_succs').get(a[2]))
        v, w = V(I, a[1]), View(I, m, old)
        d = I.E.ghost.get('last_draw') if I.verifying == self.qual else (I.E.fresh_int('successor'),)
        if d is None:
            return [('a successor is drawn', False)]
        return [('a declared successor', AND(le(0, d[0]), lt(d[0], S.n), eqn(v.htm, S.get(d[0])))),
                ('starts from the state', start_kept(old, T(0), v.htm_)),
                ('conditions applied', eqn(F(I, a[1], 's'), T(intx(K.n)))),
                ('rewards of the conditions', eqn(r, sum_(I, K.n, lambda j: condition_reward(
                    I, m, T(intx(j)), K.get(j)[1])))),
                ('other features kept', start_kept(old, v.s, v.htm_, v.body)),
                ] + chain(I, m, a[2], T, K.n)


def start_kept(s, t, n, lo=0):
    j = z3.Int('sk_j')
    return z3.ForAll([j], z3.Implies(z3.And(intx(lo) <= j, j < intx(n)), B.bit(t, j) == B.bit(s, j)),
                     patterns=[B.shr(intx(t), j)] if simple(t) else [])


class Mid(Changes):
    """Records the state after the exogenous changes."""

    def modifies(self, I, a):
        Changes.modifies(self, I, a)
        I.E.ghost['_mid'] = F(I, a[1 - 1], 's')

    def post(self, I, a, old, r):
        I.E.ghost['_changed'] = I.E.ghost.get('_changed', ()) + (self.qual.rsplit('_', 1)[0],)
        return Changes.post(self, I, a, old, r)


MidObj = Mid('object', lambda v: 0, lambda v: v.body)
MidPref = Mid('preference', lambda v: v.pref, lambda v: sub(v.htm_, v.pref))


class Simulate(Contract):
    """Every outcome of a simulated transition is one the task rules allow."""
    qual = MODEL + '.sample_transition'
    title = 'SupportivePOMDP.sample_transition'
    uses = [Htm(), SetHtm(), HasPref, GetBit(), SetBit(), MidObj, MidPref, Transition(), c16.Decode(), c16.IsBring()]
    exhaustive = True
    budget = 400

    def configs(self):
        return ['random', 'not random']

    def args(self, I):
        m = a_model(I)
        return [m, I.E.fresh_int('a'), I.E.fresh_int('s'), self.cfg == 'random']

    def pre(self, I, a):
        h = View(I, a[0], a[2]).htm
        return consistent(I, a[0]) + [('a state', AND(le(0, h), le(h, add(n_nodes(I, a[0]), 1))))]

    def capture(self, I, a):
        return F(I, a[0], 'n_simulator_calls')

    def writes(self, I, a):
        return [(a[0], 'n_simulator_calls')]

    def exc(self, I, a):
        d = c16.Decode()
        n = C(I, a[0], 'objects').n
        return [('ValueError', AND(NOT(AND(le(0, a[1]), lt(a[1], 4))), I.E.fa_expr(ALL(
            n, lambda o: NOT(d.is_for(I, a[0], a[1], o))))), 'no such action')]

    def post(self, I, a, calls, res):
        m, act, s, rnd = a
        t, obs, r = res
        f = lambda x: F(I, m, x)
        n = n_nodes(I, m)
        nobj = C(I, m, 'objects').n
        random = self.cfg == 'random'
        M = I.E.ghost.get('_mid', s)          # after the exogenous changes
        before, mid, after = [View(I, m, x) for x in (s, M, t)]
        h, h2 = mid.htm, after.htm
        pref = B.bit(M, mid.pref)             # the holding preference comes first
        wait, ask = eqn(act, 0), eqn(act, 3)
        hold = OR(eqn(act, 1), eqn(act, 2))
        step_action = OR(wait, hold)
        base = ite(boolx(wait), z3.RealVal(0), sub(0, f('cost_hold')))
        is_obs = lambda name: eqn(obs, F(I, m, name))
        same = start_kept(M, t, mid.htm_)
        unchanged = AND(eqn(h2, h), same)
        final, clean, inside = eqn(h, add(n, 1)), eqn(h, n), AND(le(0, h), lt(h, n))
        hd = F(I, F(I, C(I, m, 'htm_nodes').get(h), 'action'), 'hold')
        holds = lambda c: AND(NOT(is_none(I, hd)), I.truth(I.eq(some(hd), c)))
        match = AND(eqn(pref, 1), OR(AND(holds('h'), eqn(act, 1)), AND(holds('v'), eqn(act, 2))))
        fetched = sum_(I, nobj, lambda o: mul(f('cost_get'), B.bit(M, o)))
        # the one transition within the task, if there is one
        st = I.E.ghost.get('_step', ())
        if len(st) == 1:
            node, s0, s1, tr = st[0]
            moved = AND(eqn(node, h), eqn(s0, M), eqn(t, s1), eqn(r, add(add(add(add(base, ite(
                boolx(match), f('r_preference'), z3.RealVal(0))), tr), f('r_subtask')), ite(boolx(AND(
                    f('reward_independent_preference'), eqn(pref, 0))), sub(f('r_preference'), f('cost_hold')),
                    z3.RealVal(0)))))
        else:
            moved = False
        obj = AND(NOT(step_action), NOT(ask))
        o = z3.Int('the_object')
        d = c16.Decode()
        for_obj = d.is_for(I, m, act, o)
        cl, br, cr = C(I, m, 'clearable'), C(I, m, '_a_bring'), C(I, m, '_a_clear')
        brings = eqn(some(br.get(o)), act)
        there = eqn(B.bit(M, o), 1)
        fits = OR(AND(brings, NOT(there)), AND(NOT(brings), there))
        j = z3.Int('sj')
        only = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < intx(mid.htm_), j != o), B.bit(t, j) == B.bit(M, j)),
                         patterns=[B.shr(intx(t), j)] if simple(t) else [])
        done = AND(is_obs('O_NONE'), eqn(B.bit(t, o), ite(boolx(brings), 1, 0)), eqn(h2, h), only)
        failed = AND(is_obs('O_FAIL'), unchanged)
        obj_rule = z3.ForAll([o], z3.Implies(boolx(AND(le(0, o), lt(o, nobj), for_obj)), boolx(AND(
            IMP(NOT(fits), AND(is_obs('O_NOT_FOUND'), unchanged)),
            IMP(fits, OR(done, failed) if random else done)))))
        S = lambda: content(I, C(I, m, 'htm_succs').get(h))
        stepping = AND(step_action, inside)
        return [
            ('one simulator call', eqn(f('n_simulator_calls'), add(calls, 1))),
            ('exogenous changes only when random', True if random else eqn(M, s)),
            ('exogenous changes leave position and body', AND(eqn(h, before.htm), start_kept(s, M, mid.pref, mid.body))),
            ('final state remains', IMP(AND(step_action, final), AND(is_obs('O_NONE'), unchanged, eqn(r, base)))),
            ('cleaning ends by waiting', IMP(AND(wait, clean), AND(
                is_obs('O_NONE'), eqn(h2, add(n, 1)), same, eqn(r, sub(f('r_final'), fetched))))),
            ('cleaning is not ended by holding', IMP(AND(hold, clean), AND(failed, eqn(r, base)))),
            ('steps', IMP(stepping, OR(AND(is_obs('O_NONE'), moved), AND(failed, eqn(r, base))))),
            ('waiting never fails', IMP(AND(stepping, OR(wait, match)), is_obs('O_NONE'))),
            ('an undesired hold fails', True if random else IMP(AND(stepping, hold, NOT(match)), is_obs('O_FAIL'))),
            ('asking', IMP(ask, AND(unchanged, eqn(r, sub(0, f('cost_intrinsic'))), IMP(eqn(pref, 1), OR(
                is_obs('O_YES'), AND(random, is_obs('O_NONE')))), IMP(eqn(pref, 0), OR(
                    is_obs('O_NO'), AND(random, is_obs('O_NONE'))))))),
            ('bringing and clearing', IMP(obj, AND(obj_rule, eqn(r, sub(0, f('cost_intrinsic')))))),
            ('observation index', AND(le(0, obs), lt(obs, 5))),
            ('position', AND(le(0, h2), le(h2, add(n, 1)))),
            ('final states remain final', IMP(eqn(before.htm, add(n, 1)), eqn(h2, add(n, 1)))),
            ('never moves on a failure', IMP(is_obs('O_FAIL'), eqn(h2, before.htm))),
            ('moves only by waiting or holding', IMP(NOT(eqn(h2, before.htm)), step_action)),
        ]


class IsFinal(Contract):
    qual = MODEL + '.is_final'
    title = 'SupportivePOMDP.is_final'
    uses = [Htm()]

    def args(self, I):
        return [a_model(I), I.E.fresh_int('s')]

    def pre(self, I, a):
        return consistent(I, a[0])

    def post(self, I, a, old, r):
        return [('final position', boolx(I.truth(r)) == boolx(eqn(View(I, a[0], a[1]).htm, add(n_nodes(I, a[0]), 1))))]


class Start(Contract):
    """A start state is at an initial step, any preferences, any objects."""
    qual = MODEL + '.sample_start'
    title = 'SupportivePOMDP.sample_start'
    uses = [Htm(), SetHtm(), SetPref, SetBit(), MidObj]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        self.m = a_model(I)
        return [self.m]

    def pre(self, I, a):
        return consistent(I, a[0])

    def invariant(self, I, st):
        s = F(I, st.var('_s'), 's')
        v = View(I, self.m, s)
        w = View(I, self.m, st.entry_field(st.var('_s'), 's'))
        return [('position', eqn(v.htm, w.htm)), ('nothing below the preferences', start_kept(w.s, s, v.pref))]

    def post(self, I, a, old, r):
        m = a[0]
        d = I.E.ghost.get('draws')
        ini = C(I, m, 'htm_init')
        v = View(I, m, r)
        if not d:
            return [('an initial step is drawn', False)]
        j = I.E.fresh_int('j')
        I.E.assume(B.zero(j))
        return [('an initial step', AND(le(0, d[0][0]), lt(d[0][0], ini.n), eqn(v.htm, ini.get(d[0][0])))),
                ('nothing held', IMP(AND(le(v.body, j), lt(j, v.pref)), eqn(v.bit(j), 0))),
                ('a state', AND(le(0, v.htm), lt(v.htm, n_nodes(I, m))))]


CONTRACTS = [Condition(), Transition(), Simulate(), IsFinal(), Start()]
LEVEL = 'proof'
NOTE = ('one step of the simulator for any task, action and state and any draws: conditions in turn, the declared '
        'successor, rewards, failures, asking, bringing and clearing, start states')
ASSUMPTIONS = ['models with the tables of C13 and C16; draws are arbitrary values (frequencies are not specified)']
