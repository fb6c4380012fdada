"""Shared vocabulary of task graphs: states, actions, labels and nodes are arbitrary hashable
values (Elem), equal or not."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *

TASK = 'task_models.task:'
TG, CTG, BG = TASK + 'TaskGraph', TASK + 'ConjugateTaskGraph', TASK + 'BaseGraph'
Z = z3.IntSort()
B_ = z3.BoolSort()
ISSTATE, ISACTION = [z3.Function(x, Z, B_) for x in ('is_state', 'is_action')]
EXPLAINS = z3.Function('can_explain', Z, Z, Z, B_)
ELEM = TRef('Elem')
PAIR = TTup(ELEM, ELEM)


def world(I):
    def isa(I, v, c):
        if c is I.get_class('task_models.state:State'):
            return ISSTATE(intx(v.id))
        if c is I.get_class('task_models.action:Action'):
            return ISACTION(intx(v.id))

    def check(I, a, args, kw):
        return EXPLAINS(intx(a.id), intx(args[0].id), intx(args[1].id))
    rc = RefClass('Elem', {}, methods={'check': check})
    rc.isa = isa
    I.refclasses['Elem'] = rc


def elem(i):
    return RefV('Elem', intx(i))


def transitions(I, name='transitions'):
    return I.new_cont('dict', mk(TDict(ELEM, TSet(PAIR)), I.E.fresh_name(name), I.E.bparams()).lv.content)


def elems(I, name):
    return I.new_cont('set', mk(TSet(ELEM), I.E.fresh_name(name), I.E.bparams()).lv.content)


def graph(I, cls=TG, **fields):
    f = {'transitions': transitions(I)}
    if cls == TG:
        f.update(initial=elems(I, 'initial'), terminal=elems(I, 'terminal'))
    f.update(fields)
    return obj(I, cls, **f)


class Trans(object):
    """Transitions of a graph in some state."""

    def __init__(self, I, g):
        c = content(I, F(I, g, 'transitions'))
        self.I, self.c = I, I.dict_sym(c) if c.items is not None else c

    def sources(self, s):
        return boolx(self.c.has(elem(s)))

    def pat(self, s, l, d):
        """Pattern of a quantified fact about these transitions."""
        m = self.c.get and content(self.I, self.c.get(elem(s))).mem((elem(l), elem(d)))
        return [m] if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED else []

    def __call__(self, s, l, d):
        if self.c.get is None:
            return z3.BoolVal(False)
        v = self.c.get(elem(s))
        return AND(self.c.has(elem(s)), content(self.I, v).mem((elem(l), elem(d))))


def mem(I, g, field):
    c = content(I, F(I, g, field))
    return lambda x: boolx(c.mem(elem(x)))


def same_trans(new, old, *more):
    """new is old plus the listed transitions (ids)."""
    return FA([Z, Z, Z], lambda *x: z3.BoolVal(True), lambda s, l, d: new(s, l, d) == OR(old(s, l, d), *[
        AND(s == intx(a), l == intx(b), d == intx(c)) for a, b, c in more]), new.pat)
