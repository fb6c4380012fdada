"""Shared vocabulary of the supportive model: steps, tables, object and action indices."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *

SUP = 'task_models.supportive:'
MODEL = SUP + 'SupportivePOMDP'
CONSUMES, USES, CONSUMES_SOME = 0, 1, 2
KINDS = ((CONSUMES, 'CONSUMES'), (USES, 'USES'), (CONSUMES_SOME, 'CONSUMES_SOME'))


def leaves(I):
    """Any list of task steps: each has an action with conditions (kind, object name)."""
    I.refclasses['Leaf'] = RefClass('Leaf', {'name': TStr, 'action': TRef('SupAction')})
    I.refclasses['SupAction'] = RefClass('SupAction', {
        'conditions': TList(TTup(TInt, TStr)), 'hold': TOpt(TStr)})
    return lst(I, 'nodes', TRef('Leaf'))


def conds(I, leaf):
    return content(I, F(I, F(I, leaf, 'action'), 'conditions'))


def kind(I, name):
    return I.module_attr(I.module('task_models.supportive'), name)


def keeps(I, c):
    """Conditions that leave the object there (so that it may have to be cleared)."""
    return OR(eqn(c, kind(I, 'USES')), eqn(c, kind(I, 'CONSUMES_SOME')))


def position(I, clearable, o):
    """Index of the action that brings object o: the first four actions, then for each object
    before, one bring and possibly one clear action."""
    return add(4, sum_(I, o, lambda i: add(1, ite(boolx(clearable.get(i)), 1, 0))))


def tables(I, m):
    """Representation invariant of the action index tables."""
    cl = content(I, F(I, m, 'clearable'))
    br, cr = content(I, F(I, m, '_a_bring')), content(I, F(I, m, '_a_clear'))
    n = cl.n
    return [
        ('one bring and one clear entry per object', AND(eqn(br.n, n), eqn(cr.n, n))),
        ('bring entries', ALL(n, lambda o: AND(NOT(is_none(I, br.get(o))), eqn(
            some(br.get(o)), position(I, cl, o))))),
        ('clear entries', ALL(n, lambda o: ite(boolx(cl.get(o)), AND(NOT(is_none(I, cr.get(o))), eqn(
            some(cr.get(o)), add(position(I, cl, o), 1))), is_none(I, cr.get(o))))),
        ('objects in turn', ALL([n, n], lambda i, j: IMP(lt(i, j), le(
            add(position(I, cl, i), ite(boolx(cl.get(i)), 2, 1)), position(I, cl, j))))),
        ('after the first four', ALL(n, lambda i: le(4, position(I, cl, i)))),
    ]


def is_none(I, v):
    if v is None:
        return True
    return v.none if isinstance(v, Opt) else False


def some(v):
    return v.val if isinstance(v, Opt) else v
