"""C12  Task tree export, import and lookup are consistent."""
from pyvc.contract import *
from pyvc.interp import Builtin, RefClass
from pyvc.values import *

TASK = 'task_models.task:'
HTM = TASK + 'HierarchicalTask'
JSON = 'task_models.json_to_htm:'
COMB = {k: TASK + k + 'Combination' for k in ('Sequential', 'Parallel', 'Alternative')}
LEAF = TASK + 'LeafCombination'
Z, B_ = z3.IntSort(), z3.BoolSort()
NODE, DESC = TRef('Node'), TRef('Desc')
HAS = z3.Function('has_child_numbered', Z, Z, B_)            # below a node, a child of that number
BELOW = z3.Function('is_below', Z, Z, B_)                    # a node of the tree of another
NEXT_ = z3.Function('has_human_action_after', Z, Z, B_)
FIRST = z3.Function('first_human_action_after', Z, Z, Z)     # in depth-first order
SIZE = z3.Function('number_of_nodes', Z, Z)
OFF = z3.Function('nodes_before_child', Z, Z, Z)
EXPORT = z3.Function('describes', Z, Z, Z, B_, Z, B_)        # description, node, first number, has parent, parent
BUILT = z3.Function('is_built_from', Z, Z, B_)               # node, description


def world(I, methods=None):
    I.refclasses['Act'] = RefClass('Act', {'agent': TStr, 'name': TStr})
    I.refclasses['Node'] = RefClass('Node', {'idx': TInt, 'kind': TOpt(TStr), 'children': TList(NODE), 'action': TRef('Act')},
                                    methods=methods)
    I.refclasses['Desc'] = RefClass('Desc', {})
    I.refclasses['Gen'] = RefClass('Gen', {'n': TInt})

    def nxt(I, args, kw):
        g = I.resolve(args[0])
        n = F(I, g, 'n')
        I.setattr(g, 'n', add(n, 1))
        return n
    I.externals['next'] = Builtin('next', nxt)


class Node(object):
    def __init__(self, I, v):
        r = RefV('Node', intx(v))
        self.id = intx(v)
        self.children = content(I, F(I, r, 'children'))
        self.leaf = boolx(I.resolve(F(I, r, 'kind')).none)
        self.child = lambda i: intx(self.children.get(i).id)
        self.n = intx(self.children.n)
        self.at = lambda i: AND(0 <= i, i < self.n)
        self.I = I

    def of(self, i, f):
        return F(self.I, RefV('Node', self.child(i)), f)

    def child_leaf(self, i):
        return boolx(self.I.resolve(self.of(i, 'kind')).none)


class Parent(Contract):
    """Finds a node that has a child of that number, whenever there is one."""
    qual = HTM + '.find_parent_node'
    title = 'HierarchicalTask.find_parent_node'

    def setup(self, I):
        world(I)
        self.uses = (self.own(),)
        I.contracts[self.qual] = self.uses[0]
        I.invariants = [self.invariant]
        I.plain_loops = True

    def own(self):
        return Parent_()

    def args(self, I):
        n = RefV('Node', I.E.fresh_int('node'))
        a = [obj(I, HTM, root=n), n, I.E.fresh_int('number')]
        self.define(I, Node(I, n.id), a[2])
        return a

    def define(self, I, n, x):
        i = z3.Const('some_child', Z)
        E = I.E
        here = lambda i: OR(intx(n.of(i, 'idx')) == x, HAS(n.child(i), x))
        self.n, self.x, self.here = n, x, here
        E.assume(HAS(n.id, x) == AND(NOT(n.leaf), z3.Exists([i], AND(n.at(i), here(i)))))
        E.assume(BELOW(n.id, n.id))
        E.assume(FA([Z, Z], lambda i, y: AND(NOT(n.leaf), n.at(i), BELOW(n.child(i), y)), lambda i, y: BELOW(n.id, y)))

    def invariant(self, I, st):
        return [('not below the children so far', ALL(st.k, lambda i: NOT(self.here(intx(i)))))]

    def result(self, I, a, old):
        return I.E.fresh(TOpt(NODE), 'found')

    def post(self, I, a, old, r):
        n, x = intx(a[1].id), intx(a[2])
        r = I.resolve(r)
        if r is None:
            return [('nothing found only if there is none', NOT(HAS(n, x)))]
        none, v = (r.none, r.val) if isinstance(r, Opt) else (False, r)
        m = Node(I, v.id)
        i = z3.Const('its_child', Z)
        return [('found exactly if there is one', HAS(n, x) == NOT(none)),
                ('a node of the tree', OR(none, BELOW(n, m.id))),
                ('that has children', OR(none, NOT(m.leaf))),
                ('one of that number', OR(none, z3.Exists([i], AND(m.at(i), intx(m.of(i, 'idx')) == x))))]


class Parent_(Parent):
    def setup(self, I):
        pass


class Human(Parent):
    """The first action in depth-first order that belongs to the human and has a larger number."""
    qual = HTM + '.find_next_human_action'
    title = 'HierarchicalTask.find_next_human_action'

    def own(self):
        return Human_()

    def define(self, I, n, x):
        E = I.E
        i = z3.Const('some_child', Z)
        self.direct = direct = lambda i: AND(n.child_leaf(i), intx(n.of(i, 'idx')) > x,
                                             str_term(F(I, n.of(i, 'action'), 'agent')) == str_term('human'))
        self.here = here = lambda i: OR(direct(i), NEXT_(n.child(i), x))
        E.assume(NEXT_(n.id, x) == AND(NOT(n.leaf), z3.Exists([i], AND(n.at(i), here(i)))))
        before = lambda i: NOT(z3.Exists([z3.Const('before', Z)], AND(0 <= z3.Const('before', Z), z3.Const('before', Z) < i, here(z3.Const('before', Z)))))
        E.assume(FA([Z], lambda i: AND(NOT(n.leaf), n.at(i), here(i), before(i)),
                    lambda i: FIRST(n.id, x) == z3.If(direct(i), n.child(i), FIRST(n.child(i), x))))

    def post(self, I, a, old, r):
        n, x = intx(a[1].id), intx(a[2])
        r = I.resolve(r)
        if r is None:
            return [('nothing found only if there is none', NOT(NEXT_(n, x)))]
        none, v = (r.none, r.val) if isinstance(r, Opt) else (False, r)
        return [('found exactly if there is one', NEXT_(n, x) == NOT(none)),
                ('the first', OR(none, intx(v.id) == FIRST(n, x)))]


class Human_(Human):
    def setup(self, I):
        pass


def opt(I, v):
    v = I.resolve(v)
    if v is None:
        return z3.BoolVal(False), z3.IntVal(0)
    if isinstance(v, Opt):
        return NOT(v.none), intx(v.val)
    return z3.BoolVal(True), intx(v)


def export(I, c, args, kw):
    """Contract of as_dictionary at any node (proved below for each kind)."""
    p, g = args
    g = I.resolve(g)
    n = F(I, g, 'n')
    I.setattr(g, 'n', add(n, SIZE(intx(c.id))))
    r = I.E.fresh(DESC, 'description')
    has, p = opt(I, p)
    I.E.assume(EXPORT(intx(r.id), intx(c.id), intx(n), has, p))
    return r


class Export(Contract):
    """The description of a node and its children: numbers from the generator, in depth-first order."""
    exhaustive = True

    def __init__(self, cls):
        self.cls, self.qual = cls, (TASK + 'Combination' if cls != LEAF else LEAF) + '.as_dictionary'
        self.title = cls.split(':')[1] + '.as_dictionary'

    def configs(self):
        return ['root', 'child']

    def setup(self, I):
        world(I, {'as_dictionary': export})
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        E = I.E
        self.g = RefV('Gen', E.fresh_int('generator'))
        self.start = intx(F(I, self.g, 'n'))
        self.c = lst(I, E.fresh_name('children'), NODE)
        f = dict(_name=E.fresh(TStr, 'name'), highlighted=E.fresh(TBool, 'highlighted'), idx=None, parent=None)
        if self.cls == LEAF:
            f['action'] = obj(I, TASK + 'AbstractAction', name=E.fresh(TStr, 'action'))
        else:
            f['children'] = self.c
            f['_proba' if self.cls == COMB['Alternative'] else 'proba'] = None
        c = self.cs = content(I, self.c)
        self.v = E.fresh_int('node')
        E.assume(OFF(self.v, 0) == 0)
        E.assume(FA([Z], lambda i: AND(0 <= i, i < intx(c.n)), lambda i: AND(
            SIZE(intx(c.get(i).id)) >= 1, OFF(self.v, i + 1) == OFF(self.v, i) + SIZE(intx(c.get(i).id))), lambda i: [OFF(self.v, i)]))
        return [obj(I, self.cls, **f), None if self.cfg == 'root' else E.fresh_int('parent'), self.g]

    def writes(self, I, a):
        return [('heap', 'Gen', 'n')]

    def invariant(self, I, st):
        acc = I.read(st.var('$acc').lv)
        own, k = self.start, intx(st.k)
        return [('next number', intx(F(I, self.g, 'n')) == own + 1 + OFF(self.v, k)), ('descriptions', eqn(acc.n, k)),
                ('of the children so far', True if acc.items == [] else ALL(st.k, lambda i: self.child(acc, i)))]

    def child(self, acc, i):
        d = acc.get(i)
        if not isinstance(d, RefV):
            return False
        return EXPORT(intx(d.id), intx(self.cs.get(i).id), self.start + 1 + OFF(self.v, intx(i)), True, self.start)

    def post(self, I, a, old, r):
        c = content(I, r)
        if c.items is None:
            return [('a description', False)]
        d = {k: v for k, v in c.items}
        leaf = self.cls == LEAF
        keys = {'name', 'id', 'parent', 'combination', 'attributes'} | (set() if leaf else {'children'})
        if set(d) != keys:
            return [('the keys of a description', False)]
        n = intx(F(I, self.g, 'n'))
        kind = None if leaf else self.cls.split(':')[1].replace('Combination', '')
        at = content(I, d['attributes'])
        hl = boolx(I.getattr(a[0], 'highlighted'))
        out = [('its own number: the next', intx(d['id']) == self.start), ('its name', str_term(d['name']) == str_term(I.getattr(a[0], 'name'))),
               ('the number of its parent', I.resolve(d['parent']) is None if self.cfg == 'root' else eqn(d['parent'], a[1])),
               ('its kind', d['combination'] == kind),
               ('highlighted', AND(eqn(at.n, ite(hl, 1, 0)), OR(NOT(hl), str_term(at.get(0)) == str_term('highlighted'))) if at.items != [] else NOT(hl))]
        if leaf:
            return out + [('one number used', n == self.start + 1)]
        ds = content(I, d['children'])
        return out + [('as many numbers used as there are nodes', n == self.start + 1 + OFF(self.v, intx(self.cs.n))),
                      ('a description of each child', eqn(ds.n, self.cs.n)),
                      ('in order, numbered after it, with its number as parent', ALL(self.cs.n, lambda i: self.child(ds, i)))]


class Whole(Contract):
    """The description of a task: that of its root, numbered from 0."""
    qual = HTM + '.as_dictionary'
    title = 'HierarchicalTask.as_dictionary'
    exhaustive = True

    def configs(self):
        return [(e, n) for e in (False, True) for n in (False, True)]

    def setup(self, I):
        world(I, {'as_dictionary': export})

        class Numbers(Contract):
            qual = TASK + 'int_generator'
            title = 'int_generator: 0, 1, 2, ... (a generator without end)'
            trusted = True

            def result(self, I, a, old):
                g = RefV('Gen', I.E.fresh_int('generator'))
                I.setattr(g, 'n', 0)
                return g
        I.contracts[Numbers.qual] = Numbers()

    def args(self, I):
        empty, given = self.cfg
        self.root = None if empty else RefV('Node', I.E.fresh_int('root'))
        self.name = I.E.fresh(TStr, 'name') if given else None
        t = obj(I, HTM, root=self.root)
        return [t, self.name] if given else [t]

    def writes(self, I, a):
        return [('heap', 'Gen', 'n')]

    def post(self, I, a, old, r):
        c = content(I, r)
        d = dict(c.items) if c.items is not None else {}
        if set(d) != {'name', 'nodes'}:
            return [('name and nodes', False)]
        out = [('name', str_term(d['name']) == str_term(self.name if self.cfg[1] else 'Hierarchical task tree'))]
        n = I.resolve(d['nodes'])
        if self.cfg[0]:
            return out + [('no nodes', n is None)]
        return out + [('the description of the root, from number 0, without parent', EXPORT(
            intx(n.id), intx(self.root.id), 0, False, 0) if isinstance(n, RefV) else False)]


class Build(Contract):
    """The node of a description."""
    qual = JSON + 'build_htm'
    title = 'build_htm'
    exhaustive = True

    def configs(self):
        return ['leaf'] + sorted(COMB)

    def setup(self, I):
        world(I)
        me = self

        class Own(Build):
            def setup(self, I):
                pass

            def pre(self, I, a):
                return []

            def result(self, I, a, old):
                return I.E.fresh(NODE, 'built')

            def post(self, I, a, old, r):
                d = I.resolve(a[0])
                return [('built', BUILT(intx(r.id), intx(d.id)))]
        self.uses = (Own(),)
        I.contracts[self.qual] = self.uses[0]
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        E = I.E
        self.at = lst(I, E.fresh_name('attributes'), TStr)
        self.c = lst(I, E.fresh_name('children'), DESC)
        leaf = self.cfg == 'leaf'
        self.d = {'name': E.fresh(TStr, 'name'), 'id': E.fresh_int('id'), 'parent': E.fresh(TOpt(TInt), 'parent'),
                  'combination': None if leaf else self.cfg, 'attributes': self.at}
        if not leaf:
            self.d['children'] = self.c
        return [I.new_cont('dict', DictC(items=[(k, v) for k, v in self.d.items()]))]

    def pre(self, I, a):
        at, c = content(I, self.at), content(I, self.c)
        hl = lambda i: str_term(at.get(i)) == str_term('highlighted')
        if self.cfg == 'leaf':
            self.first = I.E.fresh_int('agent')
            return [('an agent', AND(0 <= self.first, self.first < intx(at.n), NOT(hl(self.first)))),
                    ('the first attribute but highlighted', ALL(self.first, hl))]
        return [('no agent', ALL(at.n, hl)), ('some child', le(1, c.n))]

    def invariant(self, I, st):
        l = content(I, st.var('children'))
        c = content(I, self.c)
        return [('as many', eqn(l.n, st.k)), ('built from the descriptions so far', True if l.items == [] else ALL(
            st.k, lambda i: BUILT(intx(l.get(i).id), intx(c.get(i).id))))]

    def post(self, I, a, old, r):
        leaf = self.cfg == 'leaf'
        if not (isinstance(r, ObjV) and r.cls.qual == (LEAF if leaf else COMB[self.cfg])):
            return [('its kind', False)]
        d = self.d
        p, q = opt(I, I.getattr(r, 'parent')), opt(I, d['parent'])
        out = [('its kind', I.getattr(r, 'kind') == d['combination']), ('its name', str_term(I.getattr(r, 'name')) == str_term(d['name'])),
               ('its number', eqn(I.getattr(r, 'idx'), d['id'])), ('its parent', AND(p[0] == q[0], OR(NOT(p[0]), p[1] == q[1])))]
        if leaf:
            act = I.getattr(r, 'action')
            return out + [('the action', str_term(I.getattr(act, 'name')) == str_term(d['name'])),
                          ('of the agent', str_term(I.getattr(act, 'agent')) == str_term(content(I, self.at).get(self.first)))]
        l, c = content(I, I.getattr(r, 'children')), content(I, self.c)
        return out + [('as many children', eqn(l.n, c.n)),
                      ('in order', ALL(c.n, lambda i: BUILT(intx(l.get(i).id), intx(c.get(i).id))))]


class Load(Contract):
    """The task of a file: built from its nodes."""
    qual = JSON + 'json_to_htm'
    title = 'json_to_htm'

    def setup(self, I):
        world(I)

        class Own(Contract):
            qual = JSON + 'build_htm'
            title = 'build_htm'

            def result(self, I, a, old):
                return I.E.fresh(NODE, 'built')

            def post(self, I, a, old, r):
                return [('built', BUILT(intx(r.id), intx(I.resolve(a[0]).id)))]
        I.contracts[Own.qual] = Own()
        self.nodes = I.E.fresh_int('nodes')
        I.externals['open'] = I.externals['io.open'] = Builtin('open', lambda I, a, kw: RefV('Desc', FILE(str_term(a[0]))))
        I.externals['json.load'] = Builtin('load', lambda I, a, kw: I.new_cont('dict', DictC(items=[
            ('name', I.E.fresh(TStr, 'name')), ('nodes', RefV('Desc', NODES(intx(I.resolve(a[0]).id))))])))

    def args(self, I):
        return [I.E.fresh(TStr, 'path')]

    def post(self, I, a, old, r):
        if not (isinstance(r, ObjV) and r.cls.qual == HTM):
            return [('a task', False)]
        n = I.resolve(I.getattr(r, 'root'))
        return [('built from the nodes of the file', BUILT(intx(n.id), NODES(FILE(str_term(a[0])))))]


FILE = z3.Function('file_at', Str, Z)
NODES = z3.Function('nodes_of_file', Z, Z)
TRUSTED = ['open and json.load of the standard library', 'int_generator yields 0, 1, 2, ... (a generator that never ends; run against the real one by the oracle)']
ASSUMPTIONS = ['trees are finite: spec functions of a node are fixed by those of its children (induction on the height)',
               'a described combination has some child and a description of a step names its agent']
CONTRACTS = [Parent(), Human()] + [Export(c) for c in list(COMB.values()) + [LEAF]] + [Whole(), Build(), Load()]
