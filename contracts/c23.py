"""C23  The scripted policy follows its plan."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *

P = 'task_models.policy:PolicyLongSupportiveSequence'
TOOLS = ['screws', 'screwdriver', 'joints']
BRINGS = ['bring ' + t for t in TOOLS]
CLEARS = ['clear ' + t for t in TOOLS]
NAMES = BRINGS + CLEARS + ['bring leg', 'hold H', 'wait']
OBS = ['none', 'not-found', 'fail']


def strz(x):
    return z(x)


class World(object):
    """A model whose actions and observations are any lists of distinct names that contain
    the ones of the plan; ia/io give the index of a name."""

    def __init__(self, I):
        E = I.E
        I.refclasses['Model'] = RefClass('Model', {'actions': TList(TStr), 'observations': TList(TStr),
                                                   'n_htm_states': TInt})
        self.model = RefV('Model', E.fresh_int('model'))
        self.acts = seq(I, F(I, self.model, 'actions'))
        self.obs = seq(I, F(I, self.model, 'observations'))
        self.ia = {nm: E.fresh_int('i:' + nm) for nm in NAMES}
        self.io = {nm: E.fresh_int('o:' + nm) for nm in OBS}
        for s, ix in ((self.acts, self.ia), (self.obs, self.io)):
            E.assume(s.n >= 0)
            inv = z3.Function(E.fresh_name('rank'), Str, z3.IntSort())     # names are distinct
            E.assume(ALL(s.n, lambda i: inv(strz(s.get(i))) == intx(i)))
            for nm in ix:
                E.assume([0 <= ix[nm], ix[nm] < intx(s.n), boolx(I.truth(I.eq(s.get(ix[nm]), nm)))])
        self.n = sub(F(I, self.model, 'n_htm_states'), 2)
        E.assume(le(0, self.n))


def plan_is(w, S, i):
    """The action index i is the one of the plan at the policy's position S = (b, c, needs leg, done)."""
    b, c, leg, d = S
    if b > 0:
        return eqn(i, w.ia[BRINGS[3 - b]])
    after = w.ia[CLEARS[3 - c]] if c > 0 else w.ia['wait']
    return ite(boolx(lt(d, w.n)), boolx(eqn(i, ite(boolx(leg), w.ia['bring leg'], w.ia['hold H']))),
               boolx(eqn(i, after)))


CASES = [(3, 3), (2, 3), (1, 3), (0, 3), (0, 2), (0, 1), (0, 0)]


class Base(Contract):
    exhaustive = True
    steps = False

    def configs(self):
        return CASES

    def args(self, I):
        E = I.E
        self.w = w = World(I)
        b, c = self.cfg
        self.leg = E.fresh(TBool, 'leg') if b == 0 else True
        self.done = E.fresh_int('done') if b == 0 else 0
        last = E.fresh_int('last')
        hist = lst(I, 'hist', TInt)
        o = obj(I, P, _model=w.model, history=hist, _a_wait=w.ia['wait'], _o_none=w.io['none'], n_tasks=w.n,
                tools=pylist(I, TOOLS), _a_next_list=pylist(I, [w.ia['hold H']]),
                _to_bring=pylist(I, [w.ia[x] for x in BRINGS[3 - b:]]),
                _to_clean=pylist(I, [w.ia[x] for x in CLEARS[3 - c:]]),
                _needs_leg=self.leg, _n_done=self.done, _last_action=last)
        self.last = last
        return [o] + self.more(I)

    def more(self, I):
        return []

    def S(self):
        return self.cfg + (self.leg, self.done)

    def pre(self, I, a):
        b, c = self.cfg
        d, w = self.done, self.w
        out = [('subtasks done', AND(le(0, d), le(d, w.n)))]
        if b == 0:
            out.append(('a leg is needed after the last subtask', IMP(eqn(d, w.n), self.leg)))
        if c < 3:
            out.append(('cleaning comes last', eqn(d, w.n)))
        return out

    def now(self, I, o):
        """Position after the call, and its invariant."""
        tb, tc = seq(I, F(I, o, '_to_bring')), seq(I, F(I, o, '_to_clean'))
        w = self.w
        b, c = tb.n, tc.n
        if not isinstance(b, int) or not isinstance(c, int) or b > 3 or c > 3:
            return None
        leg, d = F(I, o, '_needs_leg'), F(I, o, '_n_done')
        inv = [('tools to bring', AND(*[eqn(tb.get(k), w.ia[BRINGS[3 - b + k]]) for k in range(b)])),
               ('tools to clear', AND(*[eqn(tc.get(k), w.ia[CLEARS[3 - c + k]]) for k in range(c)])),
               ('position', AND(le(0, d), le(d, w.n), IMP(eqn(d, w.n), leg),
                                IMP(b > 0, AND(leg, eqn(d, 0), c == 3)), IMP(c < 3, AND(b == 0, eqn(d, w.n))))),
               ('model kept', AND(eqn(F(I, o, '_a_wait'), w.ia['wait']), eqn(F(I, o, 'n_tasks'), w.n)))]
        return (b, c, leg, d), inv


class GetAction(Base):
    qual = P + '.get_action'
    title = 'policy: get_action'

    def writes(self, I, a):
        return [(a[0], '_last_action')]

    def post(self, I, a, old, r):
        last = F(I, a[0], '_last_action')
        w = self.w
        return [('the action of the plan', plan_is(w, self.S(), last)),
                ('its name is returned', AND(le(0, last), lt(last, w.acts.n),
                                             I.truth(I.eq(r, w.acts.get(last)))))]


class Step(Base):
    qual = P + '.step'
    title = 'policy: step'

    def more(self, I):
        return [I.E.fresh(TStr, 'observation')]

    def pre(self, I, a):
        return Base.pre(self, I, a) + [('the last action is the one of the plan', plan_is(self.w, self.S(), self.last))]

    def conds(self, I, a):
        w = self.w
        known = ALL(w.obs.n, lambda k: NOT(I.truth(I.eq(w.obs.get(k), a[1]))))
        unknown = I.E.fa_expr(known)
        o = a[1]
        is_ = lambda x: boolx(I.truth(I.eq(o, x)))
        refused = OR(NOT(OR(is_('none'), is_('not-found'), is_('fail'))),
                     AND(is_('not-found'), eqn(self.last, w.ia['hold H'])))
        return unknown, refused, is_

    def exc(self, I, a):
        unknown, refused, is_ = self.conds(I, a)
        return [('ValueError', unknown, 'the observation does not exist'),
                ('task_models.policy:PolicyRunner.UnexpectedObservation', AND(NOT(unknown), refused),
                 'the observation cannot be interpreted')]

    def writes(self, I, a):
        o = a[0]
        return [F(I, o, 'history'), F(I, o, '_to_bring'), F(I, o, '_to_clean'), (o, '_needs_leg'), (o, '_n_done')]

    def capture(self, I, a):
        return content(I, F(I, a[0], 'history')), F(I, a[0], 'history')

    def post(self, I, a, old, r):
        w = self.w
        unknown, refused, is_ = self.conds(I, a)
        x = self.now(I, a[0])
        if x is None:
            return [('remaining tools', False)]
        (b, c, leg, d), inv = x
        b0, c0, leg0, d0 = self.S()
        same = AND(b == b0, c == c0, eqb(leg, leg0), eqn(d, d0))
        if b0 > 0:
            adv = AND(b == b0 - 1, c == c0, leg, eqn(d, 0))
        else:
            work = AND(b == 0, c == c0, eqb(leg, NOT(leg0)), eqn(d, ite(boolx(leg0), intx(d0), intx(d0) + 1)))
            clean = AND(b == 0, c == (c0 - 1 if c0 else 0), leg, eqn(d, d0))
            adv = ite(boolx(lt(d0, w.n)), boolx(work), boolx(clean))
        h = content(I, F(I, a[0], 'history'))
        h0 = old[0]
        k = I.E.fresh_int('k')
        return inv + [
            ('a failed action is repeated', IMP(is_('fail'), same)),
            ('otherwise the plan goes on', IMP(NOT(is_('fail')), adv)),
            ('history grows by two', eqn(h.n, add(h0.n, 2))),
            ('history is kept', ALL(h0.n, lambda k: eqn(h.get(k), h0.get(k)))),
            ('action recorded', eqn(h.get(h0.n), self.last)),
            ('observation recorded', I.truth(I.eq(w.obs.get(h.get(add(h0.n, 1))), a[1])))]


def eqb(x, y):
    return boolx(x) == boolx(y)


class Reset(Base):
    qual = P + '.reset'
    title = 'policy: reset'

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        x = self.now(I, a[0])
        if x is None:
            return [('all tools to bring and clear', False)]
        (b, c, leg, d), inv = x
        h = content(I, F(I, a[0], 'history'))
        last = F(I, a[0], '_last_action')
        last = last.none if isinstance(last, Opt) else last is None
        return inv + [('the plan starts again', AND(b == 3, c == 3, leg, eqn(d, 0))),
                      ('empty history', eqn(h.n, 0)), ('no last action', last)]


class Make(Base):
    qual = P + '.__init__'
    title = 'policy: construction'

    def configs(self):
        return [None]

    def args(self, I):
        self.w = w = World(I)
        self.cfg = (3, 3)
        self.leg, self.done = True, 0
        return [obj(I, P), w.model]

    post = Reset.post
    writes = Reset.writes

    def pre(self, I, a):
        return []


class NoAction(Base):
    qual = P + '.step'
    title = 'policy: step before any action'

    def args(self, I):
        a = Base.args(self, I)
        I.setattr(a[0], '_last_action', None)
        return a

    def more(self, I):
        return [I.E.fresh(TStr, 'observation')]

    def exc(self, I, a):
        return [('ValueError', True, 'no action was requested')]


CONTRACTS = [Make(), Reset(), GetAction(), Step(), NoAction()]
ASSUMPTIONS = ['one observation is reported per requested action',
               'the names of the model\'s actions are distinct and contain those of the plan (see C16)']
