"""C30  Tower building orders place every part exactly once, nothing before what is below it."""
from pyvc.contract import *
from pyvc.values import *
from pyvc.builtins_ import fmt_int

TP = 'task_models.tower_problem:TowerProblem'


def strnum(k):
    return str(k) if isinstance(k, int) else fmt_int(intx(k))


def problem(I):
    E = I.E
    h, n = E.fresh_int('height'), E.fresh_int('towers')
    E.assume([h >= 0, n >= 0])
    return obj(I, TP, h=h, n=n), h, n


class Sizes(Contract):
    qual = TP + '.n_parts'
    title = 'TowerProblem.n_parts'

    def args(self, I):
        return [problem(I)[0]]

    def post(self, I, a, old, r):
        return [('height times towers', eqn(r, mul(F(I, a[0], 'h'), F(I, a[0], 'n'))))]


class Make(Contract):
    qual = TP + '.__init__'
    title = 'TowerProblem.__init__'

    def args(self, I):
        return [obj(I, TP), I.E.fresh_int('height'), I.E.fresh_int('towers')]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        return [('height', eqn(F(I, a[0], 'h'), a[1])), ('towers', eqn(F(I, a[0], 'n'), a[2]))]


class Parts(Contract):
    qual = TP + '.parts'
    title = 'TowerProblem.parts'

    def args(self, I):
        return [problem(I)[0]]

    def post(self, I, a, old, r):
        c = seq(I, r)
        h, n = F(I, a[0], 'h'), F(I, a[0], 'n')
        return [('one per part', eqn(c.n, mul(h, n))),
                ('named by number', ALL(c.n, lambda k: I.truth(I.eq(c.get(k), strnum(k)))))]


class VFirst(Contract):
    qual = TP + '.v_first'
    title = 'TowerProblem.v_first'

    def args(self, I):
        return [problem(I)[0]]

    def post(self, I, a, old, r):
        c = seq(I, r)
        h, n = F(I, a[0], 'h'), F(I, a[0], 'n')
        return [('every part once', eqn(c.n, mul(h, n))),
                ('tower after tower, from bottom to top', ALL([n, h], lambda i, l: eqn(
                    c.get(add(mul(i, h), l)), add(mul(i, h), l))))]

    def result(self, I, a, old):
        return lst(I, I.E.fresh_name('v'), TInt)


class HFirst(VFirst):
    qual = TP + '.h_first'
    title = 'TowerProblem.h_first'

    def post(self, I, a, old, r):
        c = seq(I, r)
        h, n = F(I, a[0], 'h'), F(I, a[0], 'n')
        return [('every part once', eqn(c.n, mul(h, n))),
                ('level after level', ALL([h, n], lambda l, i: eqn(
                    c.get(add(mul(l, n), i)), add(mul(i, h), l))))]


class Permutations(Lemma):
    """Both orders, as their contracts give them, contain every part once and never place a
    part before the one directly below it."""
    title = 'lemma: both orders are permutations respecting what is below'

    def prove(self, I):
        E = I.E
        h, n, v, p, i, l, i2, l2 = [E.fresh_int(x) for x in ('h', 'n', 'v', 'p', 'i', 'l', 'i2', 'l2')]
        E.assume([h > 0, n > 0])
        # part number v is level l of tower i for exactly one (i, l)
        E.prove('parts are (tower, level) pairs', IMP(AND(0 <= v, v < h * n),
                AND(0 <= v / h, v / h < n, 0 <= v % h, v % h < h, v == (v / h) * h + v % h)))
        E.prove('horizontal positions are (level, tower) pairs', IMP(AND(0 <= p, p < h * n),
                AND(0 <= p / n, p / n < h, 0 <= p % n, p % n < n, p == (p / n) * n + p % n)))
        E.assume([0 <= i, i < n, 0 <= l, l < h, 0 <= i2, i2 < n, 0 <= l2, l2 < h])
        E.prove('numbers are in range', AND(0 <= i * h + l, i * h + l < h * n))
        E.prove('no part twice', IMP(i * h + l == i2 * h + l2, AND(i == i2, l == l2)))
        E.prove('no position twice', IMP(l * n + i == l2 * n + i2, AND(i == i2, l == l2)))
        E.prove('horizontal: the part below comes first', IMP(l > 0, AND(
            i * h + l - 1 == i * h + (l - 1), (l - 1) * n + i < l * n + i)))
        E.prove('horizontal: one level after the other', IMP(l < l2, l * n + i < l2 * n + i2))
        E.prove('vertical: one tower after the other', IMP(i < i2, i * h + l < i2 * h + l2))


class FromOrder(Contract):
    """Any order, given as a list of part numbers."""
    qual = TP + '.sequential_combination_from_order'
    title = 'TowerProblem.sequential_combination_from_order'
    exhaustive = True

    def configs(self):
        return ['named', 'unnamed']

    def args(self, I):
        order = lst(I, 'order', TInt)
        return [problem(I)[0], order, I.E.fresh(TStr, 'name') if self.cfg == 'named' else None]

    def post(self, I, a, old, r):
        if not isinstance(r, ObjV) or r.cls.name != 'SequentialCombination':
            return [('a sequence', False)]
        o = content(I, a[1])
        out = [('name', True if a[2] is None and F(I, r, 'name') is None else
                I.truth(I.eq(F(I, r, 'name'), a[2])))]
        ch = seq(I, F(I, r, 'children'))
        k = I.E.fresh_int('k')
        out.append(('one step per part', eqn(ch.n, o.n)))
        I.E.assume([0 <= k, k < intx(o.n)])
        c = ch.get(k)
        act = F(I, c, 'action')
        out.append(('steps are leaves', I.isinst(c, I.get_class('task_models.task:LeafCombination'))))
        out.append(('steps fetch the parts in order', I.truth(I.eq(F(I, act, 'obj'), strnum(o.get(k))))))
        return out


def is_sequence(I, r, order, name, at=None):
    """r is a sequence called name whose steps fetch the parts of the order (a Seq)."""
    if not isinstance(r, ObjV) or r.cls.name != 'SequentialCombination':
        return [('a sequence', False)]
    out = [('name', I.truth(I.eq(F(I, r, 'name'), name)))]
    ch = seq(I, F(I, r, 'children'))
    k = I.E.fresh_int('k') if at is None else intx(at)
    out.append(('one step per part', eqn(ch.n, order.n)))
    if at is None:
        I.E.assume([0 <= k, k < intx(order.n)])
    c = ch.get(k)
    out.append(('steps are leaves', I.isinst(c, I.get_class('task_models.task:LeafCombination'))))
    out.append(('steps fetch the parts in order', I.truth(
        I.eq(F(I, F(I, c, 'action'), 'obj'), strnum(order.get(k))))))
    return out


class Task(Contract):
    """The task with both orders: an alternative of one sequence per order."""
    qual = TP + '.vertical_horizontal_task'
    title = 'TowerProblem.vertical_horizontal_task'

    def args(self, I):
        return [problem(I)[0]]

    def orders(self, I, a):
        h, n = F(I, a[0], 'h'), F(I, a[0], 'n')
        E = I.E
        v = Seq(mul(h, n), lambda k: k)
        l, i = E.fresh_int('l'), E.fresh_int('i')
        E.assume([0 <= l, l < intx(h), 0 <= i, i < intx(n)])
        # position of level l of tower i (all positions, by the permutation lemma)
        return [('vertical', v, None),
                ('horizontal', Seq(mul(h, n), lambda k: add(mul(i, h), l)), add(mul(l, n), i))]

    def post(self, I, a, old, r):
        root = F(I, r, 'root')
        if root.cls.name != 'AlternativeCombination':
            return [('an alternative', False)]
        ch = seq(I, F(I, root, 'children'))
        os = self.orders(I, a)
        out = [('one sequence per order', eqn(ch.n, len(os)))]
        for k, (nm, o, at) in enumerate(os):
            out += [('%s: %s' % (nm, x), g) for x, g in is_sequence(I, ch.get(k), o, nm, at)]
        return out


class FromOrders(Task):
    """task_from_orders without names: sequences are named by their rank."""
    qual = TP + '.task_from_orders'
    title = 'TowerProblem.task_from_orders'
    bound_text = '1, 2 or 3 orders (of any length)'

    def configs(self):
        return [1, 2, 3]

    def args(self, I):
        return [problem(I)[0], pylist(I, [lst(I, 'o%d' % k, TInt) for k in range(self.cfg)])]

    def orders(self, I, a):
        c = seq(I, a[1])
        return [(str(k), seq(I, c.get(k)), None) for k in range(self.cfg)]


CONTRACTS = [Make(), Sizes(), Parts(), VFirst(), HFirst(), Permutations(), FromOrder(), Task(), FromOrders()]
