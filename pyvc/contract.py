"""Function contracts: the same predicates are proved for the body and assumed at calls."""
import time
import traceback
import z3
from .values import *
from .engine import Engine, ALL, FA, Obligation
from .interp import Interp, PyCls, RefClass


class Contract(object):
    qual = None          # 'module:Class.func'
    title = ''
    bounded = 0          # > 0: while loops unrolled that many times, shapes concrete
    bound_text = ''
    budget = 150         # seconds
    timeout_ms = 10000
    trusted = False      # assumed, never verified (listed in the evidence)
    uses = ()            # contracts assumed at calls (instances)
    inline = ()          # quals never taken through their contract
    exhaustive = False   # configs() are all cases, not samples

    def configs(self):
        return [None]

    def setup(self, I):
        """Reference classes, abstract functions, invariants."""

    def args(self, I):
        raise NotImplementedError

    def pre(self, I, a):
        return []

    def capture(self, I, a):
        return None

    def exc(self, I, a):
        """[(exception class name, condition, name)]: raised exactly in that case."""
        return []

    def writes(self, I, a):
        """Values the function may change: containers, arrays, (object, field) or
        ('heap', class, field).  Everything else that existed before is framed."""
        return []

    frame = True

    may_raise = ()       # exception names allowed without a condition

    def modifies(self, I, a):
        """Havoc the state the function may change (at calls)."""

    def result(self, I, a, old):
        return None

    def post(self, I, a, old, r):
        return []

    def call(self, I, a):
        f = I.get_func(self.qual)
        if f is None:
            raise Unsupported('function %s not found' % self.qual)
        args = list(a)
        if getattr(f, 'qual', self.qual) != self.qual:
            return I.call(f, args, {})       # an alias of another function
        I.verify_depth += 1                  # a recursive call goes through its contract
        try:
            return I.run_func(f, args, {})
        finally:
            I.verify_depth -= 1

    # -- use at a call site ------------------------------------------------------------
    def bind(self, I, f, args, kw):
        """Positional values of the contract's parameters."""
        loc = I.bind_args(f, args, kw)
        node = f.node
        return [loc[x.arg] for x in node.args.args]

    def apply(self, I, f, args, kw):
        E = I.E
        a = self.bind(I, f, args, kw)
        for name, g in self.pre(I, a):
            if not E.silent:     # summarising passes assume it; the reporting pass proves it
                E.prove('call %s: requires %s' % (self.short(), name), g)
            E.assume(g)
        for cls, cond, name in self.exc(I, a):
            if E.branch(boolx(cond)):
                raise PyExc(I.get_class(cls) if ':' in cls else
                            PyCls(getattr(__import__('builtins'), cls)), why=name)
        old = self.capture(I, a)
        self.modifies(I, a)
        r = self.result(I, a, old)
        for name, g in self.post(I, a, old, r):
            if g is False or is_z(g) and z3.is_false(g):
                raise Unsupported('contract of %s: "%s" cannot hold at this call' % (self.short(), name))
            E.assume(g)
        return r

    def short(self):
        return self.qual.split(':')[1]


class Lemma(Contract):
    """Obligations stated over contracts and definitions only."""
    qual = 'lemma:lemma'

    def prove(self, I):
        raise NotImplementedError


def exc_names(cls):
    if isinstance(cls, str):
        return [cls]
    if isinstance(cls, PyCls):
        return [x.__name__ for x in cls.c.__mro__[:-1]]
    out = []
    for k in cls.mro():
        out.extend([k.name] if not isinstance(k, PyCls) else
                   [x.__name__ for x in k.c.__mro__[:-1]])
    return out


class Report(object):
    def __init__(self, c, cfg=None):
        self.name = c.title or c.qual
        self.qual = c.qual
        self.bounded = c.bounded or (1 if cfg is not None and not c.exhaustive else 0)
        self.bound_text = c.bound_text
        self.obligations = []
        self.unsupported = None
        self.vacuous = False
        self.paths = 0
        self.stats = {}
        self.used = []
        self.inlined = []
        self.loops = []
        self.secs = 0.
        self.bound_hit = 0

    @property
    def ok(self):
        return not self.unsupported and not self.vacuous and self.obligations and \
            all(o.status == 'proved' for o in self.obligations)


def verify(c, cfg=None, timeout_ms=None):
    """Check one contract against the current source."""
    rep = Report(c, cfg)
    t0 = time.time()
    E = Engine(timeout_ms=timeout_ms or c.timeout_ms)
    E.budget_end = t0 + c.budget
    E.cur_fn = (c.title or c.qual.split(':')[1]) + ('' if cfg is None else ' [%s]' % (cfg,))
    I = Interp(E)
    I.bounded = c.bounded
    I.inv_applied = set()
    state = {'reached': 0, 'ended': 0}
    c.cfg = cfg

    def thunk():
        for k in c.inline:
            I.force_inline.add(k)
        I.contracts = {}
        for u in c.uses:
            I.contracts[u.qual] = u
        I.invariants = []
        I.loop_depth = 0
        I.discover = 0
        I.loop_ks = []
        I.loop_seqs = []
        I.plain_loops = False
        I.no_unroll = False
        I.owned = ()
        I.verifying = c.qual
        I.verify_depth = 0
        c.setup(I)
        if isinstance(c, Lemma):
            state['reached'] += 1
            c.prove(I)
            state['ended'] += 1
            return
        a = c.args(I)
        for name, g in c.pre(I, a):
            E.assume(g)
        if not state['reached']:
            E.silent += 1
            bad = E.valid(z3.BoolVal(False), timeout_ms=4000)
            E.silent -= 1
            if bad:
                rep.vacuous = True
                return
        state['reached'] += 1
        old = c.capture(I, a)
        excs = c.exc(I, a)
        before = (dict(E.store), dict(E.heap))
        try:
            r = c.call(I, a)
        except PyExc as e:
            state['ended'] += 1
            nms = exc_names(e.cls)
            nm = nms[0]
            if any(x in c.may_raise for x in nms):
                return
            conds = [boolx(cond) for cls, cond, name in excs if cls.split(':')[-1].split('.')[-1] in nms]
            goal = z3.Or(*conds) if conds else z3.BoolVal(False)
            E.prove('raises %s only as specified' % nm, goal, where=str(e))
            if c.frame:
                frame_check(I, c, a, before, ' (on %s)' % nm)
            return
        state['ended'] += 1
        for cls, cond, name in excs:
            E.prove('raises %s when %s' % (cls.split(':')[-1].split('.')[-1], name), NOT(boolx(cond)))
        for name, g in c.post(I, a, old, r):
            E.prove('ensures ' + name, g)
        if c.frame:
            frame_check(I, c, a, before, '')
    try:
        E.explore(thunk)
    except Unsupported as e:
        rep.unsupported = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        rep.unsupported = 'recursion limit of the verifier'
    except PyExc as e:
        rep.unsupported = 'contract evaluation raised %s' % e
    except z3.Z3Exception as e:
        rep.unsupported = 'z3: %s\n%s' % (e, traceback.format_exc()[-1500:])
    except Exception as e:
        rep.unsupported = 'verifier error: %r\n%s' % (e, traceback.format_exc()[-1500:])
    if state['reached'] and not state['ended'] and not rep.unsupported:
        rep.vacuous = True
    rep.obligations = E.obligations
    if [i for i in range(len(I.invariants)) if i not in I.inv_applied]:
        # a stated loop invariant matches no loop of the current text: open, not refuted
        for o in rep.obligations:
            if o.status == 'refuted':
                o.status = 'unknown'
                o.detail = 'loop invariant not applicable; ' + o.detail
    rep.paths = E.paths
    rep.used = sorted(I.used)
    rep.inlined = sorted(I.inlined)
    rep.loops = I.loop_log
    rep.stats = dict(queries=E.stats.queries, time=E.stats.time, cvc5=E.stats.cvc5)
    rep.secs = time.time() - t0
    rep.bound_hit = I.bound_hit
    return rep


def frame_check(I, c, a, before, when):
    """Obligations: nothing that existed before has changed, declared writes aside."""
    from . import nplib
    E = I.E
    locs, fields, heaps = set(), set(), set()
    for w in c.writes(I, a):
        if isinstance(w, tuple) and w[0] == 'heap':
            heaps.add(w[1:])
        elif isinstance(w, tuple):
            o = I.resolve(w[0])
            fields.add((o.loc, w[1]))
            v = before[0][o.loc].get(w[1])
            if isinstance(v, (ContV, NDV)) and isinstance(v.lv, Loc):
                locs.add(v.lv.id)
        elif isinstance(w, ObjV):
            locs.add(w.loc)
        elif isinstance(w, (ContV, NDV)):
            lv = w.lv
            while isinstance(lv, SubLV):
                lv = lv.parent
            if isinstance(lv, Loc):
                locs.add(lv.id)
    n = 0
    for loc, old in before[0].items():
        new = E.store.get(loc)
        if new is old or loc in locs:
            continue
        if isinstance(loc, tuple):
            if loc[0] == 'cv':
                E.prove('frame: class attribute %s unchanged%s' % (loc[2], when), False)
            continue
        n += 1
        nm = 'frame: location %d unchanged%s' % (loc, when)
        if isinstance(old, dict):
            for k in set(old) | set(new):
                if (loc, k) in fields or k not in old or old[k] is new.get(k, UNDEF):
                    continue
                g = False
                if k in old and k in new:
                    g = same_value(I, old[k], new[k])
                E.prove('frame: field %s unchanged%s' % (k, when), g)
        elif isinstance(old, NArr):
            if len(old.shape) != len(new.shape):
                E.prove(nm, False)
                continue
            E.prove(nm, AND(*[eqn(x, y) for x, y in zip(old.shape, new.shape)]))
            E.prove(nm, ALL(list(old.shape), lambda *k: I.eq(old.get(*k), new.get(*k)))
                    if old.shape else I.eq(old.get(), new.get()))
        elif isinstance(old, Seq):
            E.prove(nm, eqn(old.n, new.n))
            if isinstance(old.n, int):
                E.prove(nm, AND(*[same_value(I, old.get(k), new.get(k)) for k in range(old.n)]))
            else:
                E.prove(nm, ALL(old.n, lambda k: same_value(I, old.get(k), new.get(k))))
        elif isinstance(old, SetC):
            E.prove(nm, I.cont_eq('set', old, new))
        elif isinstance(old, DictC):
            E.prove(nm, I.cont_eq('dict', old, new))
        else:
            E.prove(nm, False)
    for key, new in E.heap.items():
        old = before[1].get(key)
        if old is new or key in heaps or getattr(new, 'initial', None):
            continue
        n += 1
        r = z3.Const(E.fresh_name('r'), Obj)
        o = old if old is not None else I.heap_initial(*key)
        E.prove('frame: %s.%s unchanged%s' % (key[0], key[1], when), same_value(I, o(r), new(r)))
    if not n:
        E.record('frame: nothing else changed' + when, 'proved', be='trivial')


def same_value(I, a, b):
    """Identity for objects and mutable containers, equality for values."""
    a, b = I.resolve(a), I.resolve(b)
    if a is b:
        return True
    if isinstance(a, (ContV, NDV)) and isinstance(b, (ContV, NDV)):
        if isinstance(a.lv, Loc) and isinstance(b.lv, Loc):
            return a.lv.id == b.lv.id
    if isinstance(a, NDV) and isinstance(b, NDV):
        from . import nplib
        x, y = nplib.nd(I, a), nplib.nd(I, b)
        if len(x.shape) != len(y.shape):
            return False
        e = I.E.fa_expr(ALL(list(x.shape), lambda *k: I.eq(x.get(*k), y.get(*k))))
        return AND(*[eqn(p, q) for p, q in zip(x.shape, y.shape)] + [e])
    if type(a) is not type(b) and not (is_num(a) and is_num(b)) and not isinstance(a, Opt) \
            and not isinstance(b, Opt):
        return False
    return I.truth(I.eq(a, b, noobj=True))


# -- helpers for contract authors ------------------------------------------------------------
def obj(I, path, **fields):
    """An object of the class with the given fields (its constructor is not run)."""
    return I.alloc(I.get_class(path), fields)


def arr(I, name, shape, kind='r', frozen=False):
    """A symbolic array of the given shape, allocated."""
    from .values import _uf
    bp = I.E.bparams()
    a = NArr(shape, lambda *ix: _uf(name + '[]', bp + [intx(i) for i in ix], KSORT[kind]) if ix else
             _uf(name, bp, KSORT[kind]), kind)
    loc = I.E.new_loc()
    I.E.store[loc] = a
    return NDV(Loc(loc), [('dim', d, 0) for d in range(len(shape))], shape)


def lst(I, name, ty, n=None):
    """A symbolic list, allocated."""
    v = mk(TList(ty), name, I.E.bparams())
    s = v.lv.content
    if n is not None:
        s = Seq(n, s._get) if not isinstance(n, int) else Seq.of([s._get(k) for k in range(n)])
    else:
        I.E.assume(s.n >= 0)
    return I.new_list(s)


def pylist(I, items):
    return I.new_list(Seq.of(items))


def content(I, v):
    """NArr / Seq content of a value in the current state."""
    from . import nplib
    v = I.resolve(v)
    if isinstance(v, NDV):
        return nplib.nd(I, v)
    if isinstance(v, ContV):
        return I.read(v.lv)
    if isinstance(v, tuple):
        return Seq.of(v)
    raise Unsupported('content of %r' % (v,))


def seq(I, v):
    return I.E_list(v)


def F(I, o, name):
    return I.getattr(o, name)


def AllSh(shape, body):
    return ALL(list(shape), body)


def sum_(I, n, f, lo=0):
    from . import sums
    return sums.sum_over(I.E, n, f, lo)


def show(rep):
    st = {}
    for o in rep.obligations:
        st[o.status] = st.get(o.status, 0) + 1
    print('%s %-60s %s paths=%d %.1fs q=%d %s' % (
        'OK ' if rep.ok else 'BAD', rep.name, st, rep.paths, rep.secs, rep.stats.get('queries', 0),
        'VACUOUS' if rep.vacuous else ''))
    if rep.unsupported:
        print('   UNSUPPORTED', rep.unsupported)
    for o in rep.obligations:
        if o.status != 'proved':
            print('   ', o.status, o.name, o.where, o.detail[:3000])
