"""Path exploration, state, solver access, obligations."""
import time
import contextlib
import z3
from .values import *
from . import values as V

z3.set_param('smt.random_seed', 0)

_ENG = [None]
_UNIQ = [0]


def eng():
    return _ENG[0]


# --------------------------------------------------------------------------
# axioms attached to function symbols: included in a query when the symbol occurs
AXIOMS = {}
_AX_KEEP = []


def axiom_for(decl, *axs):
    AXIOMS.setdefault(decl.get_id(), []).extend(axs)
    _AX_KEEP.append(decl)


def has_axioms(decl):
    return decl.get_id() in AXIOMS


_decl_cache = {}


def decls_of(e):
    """ids of uninterpreted declarations in e (cached)."""
    i = e.get_id()
    hit = _decl_cache.get(i)
    if hit is not None:
        return hit[1]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_quantifier(x):
            stack.append(x.body())
            for p in range(x.num_patterns()):
                stack.append(x.pattern(p))
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.get_id())
                _DECLS.setdefault(d.get_id(), d)
            stack.extend(x.children())
    _decl_cache[i] = (e, out)
    return out


_DECLS = {}


def relevant_axioms(assertions):
    seen = set()
    todo = set()
    for a in assertions:
        todo |= decls_of(a)
    out = []
    lits = []
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        for ax in AXIOMS.get(d, ()):
            out.append(ax)
            todo |= decls_of(ax) - seen
        if d in V.NONNEG:
            out.append(V.NONNEG[d][1])
        dd = _DECLS.get(d)
        if dd is not None and dd.arity() == 0 and dd.name().startswith('lit:'):
            lits.append(dd())
    if len(lits) > 1:
        out.append(z3.Distinct(*lits))
    return out


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.
        self.cvc5 = 0


class Dec(object):
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.alts = prefix, 0, [], []


class Outcome(object):
    def __init__(self, kind, val, pc, snap):
        self.kind, self.val, self.pc, self.snap = kind, val, pc, snap

    @property
    def cond(self):
        return AND(*[c for t, c in self.pc if t == 'c'])


class Obligation(object):
    def __init__(self, name, status, detail='', where='', backend='z3', secs=0.):
        self.name, self.status, self.detail = name, status, detail
        self.where, self.backend, self.secs = where, backend, secs


class FA(object):
    """forall idx (sorts) with range(idx): body(idx)."""

    def __init__(self, sorts, rng, body, pats=None, names=None):
        self.sorts, self.rng, self.body, self.pats, self.names = sorts, rng, body, pats, names


def ALL(n, body, pats=None):
    """forall 0 <= k < n (n may be a list of bounds): body(k...)"""
    if not isinstance(n, (list, tuple)):
        n = [n]
    b = [x if isinstance(x, tuple) else (0, x) for x in n]
    if any(z3.is_true(z3.simplify(intx(hi) <= intx(lo))) for lo, hi in b):
        return True
    return FA([z3.IntSort()] * len(b),
              lambda *ks: AND(*[c for (lo, hi), k in zip(b, ks)
                                for c in (le(lo, k), lt(k, hi))]),
              body, pats)


class Engine(object):

    def __init__(self, timeout_ms=10000, feas_ms=400):
        _ENG[0] = self
        self.timeout_ms, self.feas_ms = timeout_ms, feas_ms
        self.stats = Stats()
        self.obligations = []
        self.qcache = {}
        self.cur_fn = ''
        self.budget_end = None
        self.silent = 0
        self.paths = 0
        self.reset_run([])

    # -- state -------------------------------------------------------------
    def reset_run(self, prefix):
        self.store = {}
        self.heap = {}
        self.pc = []          # list of (tag, expr)
        self.ghost = {}
        self.forward = {}
        self.epochs = {}
        self.nloc = 0
        self.nfresh = 0
        self.joins = {}
        self.bstack = []
        self.dec = Dec(prefix)
        self.writes = set()
        self.depth = 0
        self.callstack = []
        self.hyps = []

    def snapshot(self):
        return (dict(self.store), dict(self.heap), list(self.pc), dict(self.ghost),
                dict(self.forward), dict(self.epochs), set(self.writes), self.depth,
                list(self.callstack), list(self.bstack))

    def restore(self, s):
        self.store, self.heap, self.pc, self.ghost = dict(s[0]), dict(s[1]), list(s[2]), dict(s[3])
        self.forward, self.epochs, self.writes = dict(s[4]), dict(s[5]), set(s[6])
        self.depth, self.callstack, self.bstack = s[7], list(s[8]), list(s[9])

    # -- fresh symbols --------------------------------------------------------
    def fresh_name(self, name):
        self.nfresh += 1
        return '%s!%d' % (name, self.nfresh)

    def uniq_name(self, name):
        """A name never used again (fresh names are shared by alternative paths)."""
        _UNIQ[0] += 1
        return '%s~%d' % (name, _UNIQ[0])

    def bparams(self):
        return [k for ks in self.bstack for k in ks]

    def fresh(self, ty, name):
        """Fresh symbolic value; inside a bound scope it is a function of the
        bound indices."""
        return mk(ty, self.fresh_name(name), self.bparams())

    def fresh_int(self, name='i'):
        return self.fresh(TInt, name)

    def new_loc(self):
        self.nloc += 1
        return self.nloc

    # -- assumptions ------------------------------------------------------------
    def assume(self, f, tag='f'):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x, tag)
            return
        if isinstance(f, tuple):
            f = f[-1]
        if isinstance(f, FA):
            f = self.fa_expr(f)
        if f is True:
            return
        if f is False:
            self.pc.append((tag, z3.BoolVal(False)))
            return
        self.pc.append((tag, f))

    def fa_expr(self, fa):
        ks = [z3.Const(self.fresh_name('q'), s) for s in fa.sorts]
        rng = boolx(fa.rng(*ks))
        with self.bound(ks, rng):
            body = self.fa_body(fa, ks)
            if isinstance(body, FA):
                body = self.fa_expr(body)
            body = boolx(body)
            pats = fa.pats(*ks) if fa.pats else []
        if z3.is_true(body):
            return True
        if pats:
            return z3.ForAll(ks, z3.Implies(rng, body), patterns=[
                z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
        return z3.ForAll(ks, z3.Implies(rng, body))

    def fa_body(self, fa, ks):
        try:
            return fa.body(*ks)
        except EmptyIndex:
            if self.valid(False, quick=True):
                return True         # empty range
            raise

    @contextlib.contextmanager
    def bound(self, ks, rng):
        mark = len(self.pc)
        self.pc.append(('c', boolx(rng)))
        self.bstack.append(list(ks))
        try:
            yield
        finally:
            new = self.pc[mark + 1:]
            del self.pc[mark:]
            self.bstack.pop()
            conds = [boolx(rng)]
            for t, f in new:
                if t == 'c':
                    conds.append(f)
                else:
                    self.pc.append(('f', self.gen(ks, conds, f)))

    def gen(self, ks, conds, f):
        return z3.ForAll(list(ks), z3.Implies(z3.And(*conds) if len(conds) > 1 else conds[0], f))

    # -- solver -------------------------------------------------------------------
    def _solve(self, asserts, timeout_ms, seed=0, want_model=False, mbqi=True):
        t0 = time.time()
        s = z3.Solver()
        if not mbqi:
            s.set('mbqi', False)
        s.set('timeout', int(timeout_ms))
        if seed:
            s.set('random_seed', seed)
        s.add(*asserts)
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        m = None
        if want_model and r != z3.unsat:
            try:
                m = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                m = None
        return r, m

    def assertions(self, extra=()):
        a = [f for _, f in self.pc] + list(extra)
        return a + relevant_axioms(a)

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        a = self.assertions([c])
        key = ('f',) + tuple(sorted(set(x.get_id() for x in a)))
        hit = self.qcache.get(key)
        if hit is not None:
            return hit[0]
        # ground facts first (fast), then with the quantified ones
        r, _ = self._solve(a, self.feas_ms // 2 if self.silent else self.feas_ms, mbqi=False)
        ok = r != z3.unsat
        self.qcache[key] = (ok, a)
        return ok

    def valid(self, goal, timeout_ms=None, quick=False):
        """True if goal is provable from the current path condition (silent)."""
        if isinstance(goal, (list, tuple)):
            return all(self.valid(g, timeout_ms, quick) for g in goal)
        if isinstance(goal, FA):
            return self._valid_fa(goal, timeout_ms, quick)
        if isinstance(goal, bool):
            if goal:
                return True
            goal = z3.BoolVal(False)
        st, _, _, _ = self._discharge(goal, timeout_ms or (2000 if quick else self.timeout_ms),
                                      quick=quick)
        return st == 'proved'

    def _valid_fa(self, fa, timeout_ms, quick):
        ks = [z3.Const(self.fresh_name('sk'), s) for s in fa.sorts]
        mark = len(self.pc)
        try:
            self.assume(fa.rng(*ks))
            b = self.fa_body(fa, ks)
            return self.valid(b, timeout_ms, quick)
        finally:
            del self.pc[mark:]

    def _discharge(self, goal, timeout_ms, quick=False):
        """status, detail, backend, secs"""
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', '', 'simplify', 0.
        from . import sums
        a = self.assertions([z3.Not(goal)] + sums.flat_hints(goal))
        key = ('v', quick) + tuple(sorted(set(x.get_id() for x in a)))
        hit = self.qcache.get(key)
        if hit is not None:
            return hit[0][:3] + (0.,)
        r, m = z3.unknown, None
        if not quick and any(map(z3.is_quantifier, a)):
            r, _ = self._solve(a, min(timeout_ms, 1500), mbqi=False)
        if r != z3.unsat:
            r, m = self._solve(a, timeout_ms if quick else min(timeout_ms, 4000), want_model=not quick)
        backend = 'z3'
        if r == z3.unknown and not quick:
            for tries in (1, 2):
                if r == z3.unknown:
                    if tries == 1:
                        r = self._cvc5(a, timeout_ms)
                        backend = 'cvc5'
                    else:
                        r, m = self._solve(a, timeout_ms, seed=7, want_model=True)
                        backend = 'z3'
        st = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[str(r)]
        det = ''
        if st == 'refuted' and m is not None:
            det = 'counter-model: ' + ', '.join(
                '%s=%s' % (d.name(), m[d]) for d in m.decls()
                if d.arity() == 0 and d.range().kind() != z3.Z3_ARRAY_SORT)[:1500]
        res = (st, det, backend, time.time() - t0)
        self.qcache[key] = (res, a)
        return res

    def _cvc5(self, asserts, timeout_ms):
        from .cvc5be import check
        t0 = time.time()
        try:
            r = check(asserts, timeout_ms)
        except Exception:
            r = 'unknown'
        self.stats.cvc5 += 1
        self.stats.time += time.time() - t0
        return z3.unsat if r == 'unsat' else z3.unknown

    # -- obligations -----------------------------------------------------------------
    def prove(self, name, goal, where=''):
        if isinstance(goal, (list, tuple)):
            ok = True
            for i, g in enumerate(goal):
                ok = self.prove('%s.%d' % (name, i), g, where) and ok
            return ok
        if isinstance(goal, FA):
            ks = [z3.Const(self.fresh_name('sk'), s) for s in goal.sorts]
            mark = len(self.pc)
            try:
                self.assume(goal.rng(*ks))
                return self.prove(name, self.fa_body(goal, ks), where)
            finally:
                del self.pc[mark:]
        if isinstance(goal, bool):
            if goal:
                self.record(name, 'proved', '', where, 'trivial', 0.)
                return True
            goal = z3.BoolVal(False)
        st, det, be, secs = self._discharge(goal, self.timeout_ms)
        if st != 'proved':
            # extensionality of sums occurring in the goal, then retry
            from . import sums
            n = sums.ext_facts(self, goal)
            if n:
                st, det, be, secs = self._discharge(goal, self.timeout_ms)
        if st != 'proved' and z3.is_and(goal):
            ok = True
            for c in goal.children():
                ok = self.prove(name, c, where) and ok
            return ok
        if st != 'proved':
            det = det + '\ngoal: ' + str(z3.simplify(goal))[:1500] + '\npath: ' + \
                '; '.join(str(c)[:200] for t, c in self.pc if t == 'c')[:2500]
        self.record(name, st, det, where, be, secs)
        return st == 'proved'

    def record(self, name, st, det='', where='', be='z3', secs=0.):
        if self.silent:
            return
        self.obligations.append(Obligation(self.cur_fn + ' :: ' + name, st, det, where, be, secs))

    # -- decisions ---------------------------------------------------------------------
    def choose(self, n):
        d = self.dec
        if d.pos < len(d.prefix):
            c = d.prefix[d.pos]
        else:
            c = 0
            for i in range(n - 1, 0, -1):
                d.alts.append(d.taken + [i])
        d.pos += 1
        d.taken.append(c)
        return c

    def branch(self, c):
        """Decide a condition, forking the path when both sides are possible."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c) if not z3.is_quantifier(c) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for t, f in self.pc:
            if f.eq(c):
                return True
            if z3.is_not(f) and f.arg(0).eq(c) or z3.is_not(c) and c.arg(0).eq(f):
                return False
        ft = self.feasible(c)
        ff = self.feasible(NOT(c))
        if ft and not ff:
            self.assume(c)     # implied: not a decision
            return True
        if ff and not ft:
            self.assume(NOT(c))
            return False
        if not ft and not ff:
            raise PathEnd()
        if self.choose(2) == 0:
            self.assume(c, 'c')
            return True
        self.assume(NOT(c), 'c')
        return False

    def must(self, c, exc, why=''):
        """The operation raises `exc` unless c."""
        if c is True:
            return
        if not self.branch(c):
            raise PyExc(exc, why=why)

    def explore(self, thunk, max_paths=4000):
        """Top level exploration of all paths."""
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            self.reset_run(prefix)
            n += 1
            self.paths += 1
            if n > max_paths:
                raise Unsupported('too many paths')
            if self.budget_end and time.time() > self.budget_end:
                raise Unsupported('time budget of the function exhausted')
            try:
                thunk()
            except PathEnd:
                pass
            stack.extend(self.dec.alts)
        return n

    def sub_explore(self, thunk, max_paths=400):
        snap = self.snapshot()
        dec = self.dec
        outs = []
        stack = [[]]
        n = 0
        nf0 = top = self.nfresh
        while stack:
            prefix = stack.pop()
            self.restore(snap)
            self.dec = Dec(prefix)
            self.nfresh = nf0     # equal prefixes draw equal symbols
            mark = len(self.pc)
            n += 1
            if n > max_paths:
                self.restore(snap)
                self.dec = dec
                raise Unsupported('too many paths in a nested evaluation')
            if self.budget_end and time.time() > self.budget_end:
                raise Unsupported('time budget of the function exhausted')
            try:
                try:
                    v = thunk()
                    kind = 'ok'
                except PyExc as e:
                    kind, v = 'exc', e
                except Ret as e:
                    kind, v = 'ret', e.v
                except Brk:
                    kind, v = 'brk', None
                except Cont_:
                    kind, v = 'cont', None
                outs.append(Outcome(kind, v, self.pc[mark:], self.snapshot()))
            except PathEnd:
                pass
            top = max(top, self.nfresh)
            stack.extend(self.dec.alts)
        self.restore(snap)
        self.nfresh = top
        self.dec = dec
        return outs

    def keep_facts(self, outs):
        """Keep the facts learned along nested outcomes, under their conditions."""
        for o in outs:
            conds = []
            for t, f in o.pc:
                if t == 'c':
                    conds.append(f)
                else:
                    self.assume(z3.Implies(z3.And(*conds), f) if conds else f)

    def adopt(self, outs, base_store):
        """Adopt locations allocated inside nested outcomes."""
        for o in outs:
            for k, v in o.snap[0].items():
                if k not in base_store:
                    self.store[k] = v

    def pure(self, outs):
        """True if no outcome changed pre-existing state."""
        st, hp, gh = self.store, self.heap, self.ghost
        for o in outs:
            s2, h2, g2 = o.snap[0], o.snap[1], o.snap[3]
            for k, v in st.items():
                if s2.get(k) is not v:
                    return False
            if any(h2.get(k) is not v for k, v in hp.items()) or \
                    any(k not in hp for k in h2):
                # lazily created heap maps are fine when untouched
                for k, v in h2.items():
                    if hp.get(k) is not v and getattr(v, 'initial', None) is None:
                        return False
            if any(g2.get(k) is not v for k, v in gh.items()) or any(k not in gh for k in g2):
                return False
            if len(o.snap[4]) != len(self.forward):
                return False
        return True

    def merge(self, outs):
        """Merged value of 'ok' outcomes."""
        v = outs[-1].val
        for o in reversed(outs[:-1]):
            v = ite(boolx(o.cond), o.val, v)
        return v

    # -- equality (Python ==) -- installed by the interpreter
    def eq(self, a, b):
        return self.interp.eq(a, b)
