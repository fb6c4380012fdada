"""Shared vocabulary of the search tree: observation nodes, action nodes, averages, beliefs as
heap references.  References of what exists at the start are below TOP; new nodes are above."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *
from pyvc.values import _sym_dict as sym_dict

MOD = 'task_models.lib.pomcp:'
MAX = 'task_models.lib.belief:MaxSamplesReached'
SUCC = z3.Function('successor_belief', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
Z = z3.IntSort()
KIND = z3.Function('kind_of_node', Z, Z)
KINDS = {'Obs': 0, 'Act': 1, 'Avg': 2}


def succ_belief(I, b, args, kw):
    """Any belief: the successor is determined by belief, action, observation, or fails."""
    if I.E.choose(2):
        raise PyExc(I.get_class(MAX), obj=I.alloc(I.get_class(MAX), {'msg': 'x'}))
    return RefV('Belief', SUCC(intx(b.id), intx(args[1]), intx(args[2])))


def classes(I, sample=None):
    I.refclasses['Avg'] = RefClass('Avg', {'n_simulations': TInt, 'total_value': TReal, 'alpha': TReal},
                                   I.get_class(MOD + '_ValueAverage'))
    I.refclasses['Act'] = RefClass('Act', {'_avg': TRef('Avg'), 'children': TDict(TInt, TRef('Obs'))},
                                   I.get_class(MOD + '_SearchActionNode'))
    I.refclasses['Obs'] = RefClass('Obs', {'_avg': TRef('Avg'), 'belief': TRef('Belief'), '_children_alpha': TReal,
                                           'children': TList(TOpt(TRef('Act')))},
                                   I.get_class(MOD + '_SearchObservationNode'))
    ms = {'successor': succ_belief}
    if sample:
        ms['sample'] = sample
    I.refclasses['Belief'] = RefClass('Belief', {}, methods=ms)
    top = I.E.fresh_int('TOP')
    I.E.ghost['_top'] = top
    I.E.ghost['_new'] = 0

    def fresh(r):
        n = I.E.ghost['_new']
        I.E.ghost['_new'] = n + 1
        I.E.assume(r.id == I.E.ghost['_top'] + n)
        if r.cls in KINDS:
            I.E.assume(KIND(r.id) == KINDS[r.cls])
    I.on_promote = fresh


def ref(I, cls, name):
    r = RefV(cls, I.E.fresh_int(name))
    I.E.assume(r.id < I.E.ghost['_top'])
    I.E.assume(KIND(r.id) == KINDS[cls])
    return r


class Heap(object):
    """Links of the tree in some state of the heap (the current one by default)."""

    def __init__(self, I):
        self.I = I
        self.heap = dict(I.E.heap)
        self.fields = {k: I.heap_get(*k) for k in (('Obs', 'children'), ('Act', 'children'), ('Obs', 'belief'))}

    def field(self, cls, f, x):
        v = self.fields[cls, f](intx(x))
        v = content(self.I, v) if isinstance(v, ContV) else v
        return sym_dict(v) if isinstance(v, DictC) else v

    def act(self, o, a):
        """Action child of observation node o (ids)."""
        v = self.field('Obs', 'children', o).get(a)
        if isinstance(v, Opt):
            return Opt(v.none, self.I.ref_of_obj(v.val) if isinstance(v.val, ObjV) else v.val)
        return Opt(z3.BoolVal(False), self.I.ref_of_obj(v))

    def n(self, o):
        return self.field('Obs', 'children', o).n

    def has(self, c, o):
        return self.field('Act', 'children', c).has(o)

    def obs(self, c, o):
        g = self.field('Act', 'children', c).get
        return self.I.ref_of_obj(g(o)) if g is not None else RefV('Obs', z3.IntVal(0))

    def belief(self, o):
        return self.field('Obs', 'belief', o).id


def well_formed(I, n_actions, top=None):
    """Every existing node links to existing nodes only and has one child slot per action."""
    h = Heap(I)
    top = I.E.ghost['_top'] if top is None else top
    alpha = I.heap_get('Obs', '_children_alpha')
    obs, act = lambda o: AND(o < top, KIND(o) == 0), lambda c: AND(c < top, KIND(c) == 1)
    return [
        ('recency weights', FA([Z], obs, lambda o: AND(le(0, alpha(o)), le(alpha(o), 1)))),
        ('one slot per action', FA([Z], obs, lambda o: eqn(h.n(o), n_actions))),
        ('existing action nodes', FA([Z, Z], lambda o, a: AND(obs(o), le(0, a), lt(a, n_actions)), lambda o, a: OR(
            h.act(o, a).none, act(h.act(o, a).val.id)))),
        ('existing observation nodes', FA([Z, Z], lambda c, o: AND(act(c), h.has(c, o)), lambda c, o: obs(h.obs(c, o).id))),
    ]
