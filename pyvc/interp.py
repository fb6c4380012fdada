"""Symbolic interpreter for the Python subset, working on the AST of /repo."""
import ast
import os
import builtins as _b
import z3
from .values import *
from . import values as V
from .engine import ALL, FA, eng

REPO = os.environ.get('PYVC_REPO', '/repo')


class PyCls(object):
    """A builtin class (exceptions, int, object...)."""
    _all = {}

    def __new__(cls, c):
        if c not in cls._all:
            o = object.__new__(cls)
            o.c, o.name = c, c.__name__
            cls._all[c] = o
        return cls._all[c]

    def __repr__(self): return '<pycls %s>' % self.name


class RecV(object):
    """An object created under a symbolic index, kept as a value (no identity)."""
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields): self.cls, self.fields = cls, fields


class RefClass(object):
    """Field table of a class whose instances are symbolic references."""

    def __init__(self, name, fields, classv=None, methods=None, eq=None, attrs=None, isa=None):
        self.name, self.fields, self.classv = name, fields, classv
        self.methods = methods or {}
        self.attrs = attrs or {}
        self.eq = eq
        self.isa = isa


class Module(object):
    def __init__(self, interp, name, path):
        self.interp, self.name, self.path = interp, name, path
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.defs = {}
        self.index(self.tree.body)

    def index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = st
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = ('unsupported', st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name, bool(a.asname))
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs[a.asname or a.name] = ('from', st.level, st.module, a.name)
            elif isinstance(st, ast.If):
                # e.g. the python version switch: take the branch that is true
                t = self.static_test(st.test)
                if t is True:
                    self.index(st.body)
                elif t is False:
                    self.index(st.orelse)
                else:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.defs[x.id] = ('unsupported', st)
            elif isinstance(st, ast.Try):
                self.index(st.body)

    def static_test(self, t):
        src = ast.unparse(t)
        if 'sys.version_info' in src:
            return eval(src, {'sys': __import__('sys')})
        if '__name__' in src:
            return False
        return None

    def __repr__(self): return '<module %s>' % self.name


class ExtModule(object):
    def __init__(self, name): self.name = name
    def __repr__(self): return '<ext %s>' % self.name


class Frame(object):
    __slots__ = ('fid', 'parent', 'func', 'module', 'locs', 'nonlocals')

    def __init__(self, fid, parent, func, module, locs, nonlocals=()):
        self.fid, self.parent, self.func, self.module = fid, parent, func, module
        self.locs, self.nonlocals = locs, nonlocals


_locals_cache = {}


def local_names(node):
    if node in _locals_cache:
        return _locals_cache[node]
    out, nonl = set(), set()
    a = node.args
    for x in a.args + a.kwonlyargs + a.posonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            walk(n.generators[0].iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            nonl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for st in body:
        walk(st)
    r = (out - nonl, nonl)
    _locals_cache[node] = r
    return r


def is_gen(node):
    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return not isinstance(node, ast.Lambda) and walk(node)


class Interp(object):

    MAXDEPTH = 40

    def __init__(self, E):
        self.E = E
        E.interp = self
        self.modules = {}
        self.classes = {}
        self.contracts = {}
        self.refclasses = {}
        self.externals = {}
        self.verifying = None
        self.verify_depth = 0
        self.invariants = []
        self.loop_depth = 0
        self.discover = 0
        self.loop_ks = []
        self.loop_seqs = []
        self.plain_loops = False   # no closed forms for containers: invariants only
        self.force_inline = set()
        self.used = set()
        self.inlined = set()
        self.loop_log = []
        self.bounded = 0
        self.bound_hit = 0
        from . import builtins_ as B, nplib
        B.install(self)
        nplib.install(self)

    # -- modules ---------------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] == 'task_models':
            p = os.path.join(REPO, *name.split('.'))
            for c in (p + '.py', os.path.join(p, '__init__.py')):
                if os.path.exists(c):
                    m = Module(self, name, c)
                    break
            else:
                raise Unsupported('module %s not found' % name)
        else:
            m = ExtModule(name)
        self.modules[name] = m
        return m

    def module_attr(self, m, name):
        if isinstance(m, ExtModule):
            full = m.name + '.' + name
            if full in self.externals:
                x = self.externals[full]
                return x
            return ExtModule(full)
        E = self.E
        key = ('gv', m.name, name)
        if key in E.store:
            return E.store[key]
        if name not in m.defs:
            if os.path.isdir(m.path.replace('__init__.py', name)):
                return self.module(m.name + '.' + name)
            raise PyExc(PyCls(NameError), why=name)
        d = m.defs[name]
        if isinstance(d, tuple):
            if d[0] == 'unsupported':
                raise Unsupported('module level binding of %s' % name)
            if d[0] == 'import':
                v = self.module(d[1]) if d[2] else self.module(d[1].split('.')[0])
            else:
                _, level, mod, nm = d
                if level:
                    pkg = m.name.split('.')
                    pkg = pkg[:len(pkg) - level]
                    full = '.'.join(pkg + ([mod] if mod else []))
                else:
                    full = mod
                mm = self.module(full)
                v = self.module_attr(mm, nm)
        elif isinstance(d, ast.FunctionDef):
            v = self.make_func(d, None, m)
        elif isinstance(d, ast.ClassDef):
            v = self.make_class(d, m)
        else:
            fr = self.module_frame(m)
            v0 = self.ev(d.value, fr)
            if isinstance(d, ast.Assign) and not all(isinstance(t, ast.Name) for t in d.targets):
                env = {}
                for t in d.targets:
                    self.bind_static(t, v0, env)
                v = env[name]
            else:
                v = v0
        E.store[key] = v
        return v

    def bind_static(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = self.E_list(v).items
            for a, b in zip(t.elts, its):
                self.bind_static(a, b, env)
        else:
            raise Unsupported('module level target')

    def module_frame(self, m):
        return Frame(('mod', m.name), None, None, m, set())

    def make_func(self, node, frame, module, cls=None, qualprefix=''):
        f = FuncV(node, frame, module, cls)
        f.qual = '%s:%s%s' % (module.name, (cls.cname + '.') if cls is not None else qualprefix,
                              f.name)
        return f

    def make_class(self, node, m, prefix='', frame=None):
        key = (m.name, prefix + node.name)
        if key in self.classes:
            return self.classes[key]
        bases = []
        fr = frame or self.module_frame(m)
        for b in node.bases:
            v = self.ev(b, fr)
            bases.append(v)
        c = ClassV(node.name, m, node, bases)
        c.cname = prefix + node.name
        self.classes[key] = c
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, None, m, c)
                v = f
                for d in reversed(st.decorator_list):
                    dn = ast.unparse(d)
                    if dn == 'property':
                        v = PropV(v)
                    elif dn == 'staticmethod':
                        v = StaticV(v)
                    elif dn == 'classmethod':
                        v = ClassMV(v)
                    elif dn.endswith('.setter'):
                        p = c.attrs.get(dn[:-7])
                        f.qual += '.setter'
                        v = PropV(p.fget if isinstance(p, PropV) else None, v)
                    elif dn.endswith('.getter'):
                        p = c.attrs.get(dn[:-7])
                        v = PropV(v, p.fset if isinstance(p, PropV) else None)
                    else:
                        v = ('unsupported', 'decorator ' + dn)
                c.attrs[st.name] = v
            elif isinstance(st, ast.ClassDef):
                c.attrs[st.name] = ('class', st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = ('expr', st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, x in enumerate(t.elts):
                            c.attrs[x.id] = ('item', st.value, i)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                c.attrs[st.target.id] = ('expr', st.value)
            elif isinstance(st, (ast.Expr, ast.Pass)):
                pass
            else:
                c.attrs['<unsupported>'] = st
        return c

    def class_attr_raw(self, c, name):
        """(found, value, defining class)"""
        for k in c.mro():
            if isinstance(k, ClassV):
                ov = self.E.store.get(('cv', k.qual, name))
                if ov is not None:
                    return True, ov[0], k
                if name in k.attrs:
                    v = k.attrs[name]
                    if isinstance(v, tuple):
                        if v[0] == 'unsupported':
                            raise Unsupported(v[1])
                        fr = Frame(('cls', k.qual), None, None, k.module, set())
                        fr.parent = _ClassScope(k)
                        if v[0] == 'class':
                            val = self.make_class(v[1], k.module, k.cname + '.')
                        elif v[0] == 'expr':
                            val = self.ev(v[1], fr)
                        else:
                            val = self.E_list(self.ev(v[1], fr)).items[v[2]]
                        self.E.store[('cv', k.qual, name)] = (val,)
                        return True, val, k
                    return True, v, k
            elif isinstance(k, PyCls) and hasattr(k.c, name) and name not in ('__init__', '__eq__',
                                                                             '__hash__', '__str__'):
                pass
            elif isinstance(k, ExtModule):
                pass
        return False, None, None

    def get_class(self, path):
        """'mod:Class' or 'mod:A.B'"""
        m, c = path.split(':')
        parts = c.split('.')
        v = self.module_attr(self.module(m), parts[0])
        for p in parts[1:]:
            ok, v, _ = self.class_attr_raw(v, p)
        return v

    def get_func(self, path):
        m, c = path.split(':')
        parts = c.split('.')
        mod = self.module(m)
        if len(parts) == 1:
            return self.module_attr(mod, parts[0])
        setter = parts[-1] == 'setter'
        if setter:
            parts = parts[:-1]
        v = self.module_attr(mod, parts[0])
        for p in parts[1:]:
            ok, v, _ = self.class_attr_raw(v, p)
            if not ok:
                return None
        if isinstance(v, PropV):
            v = v.fset if setter else v.fget
        if isinstance(v, (StaticV, ClassMV)):
            v = v.f
        return v

    # -- objects -----------------------------------------------------------------
    def alloc(self, cls, fields=None):
        loc = self.E.new_loc()
        self.E.store[loc] = dict(fields or {})
        return ObjV(loc, cls)

    def field(self, o, name):
        return self.E.store[o.loc][name]

    def heap_initial(self, cls, field):
        ty = self.refclasses[cls].fields[field]
        return lambda r: mk(ty, '%s.%s' % (cls, field), [r])

    def heap_get(self, cls, field):
        E = self.E
        key = (cls, field)
        if key not in E.heap:
            ty = self.refclasses[cls].fields[field]

            def init(r, ty=ty):
                return mk(ty, '%s.%s' % (cls, field), [r])
            init.initial = True
            E.heap[key] = init
        return E.heap[key]

    def heap_havoc(self, cls, field):
        """Any value of the field in every object."""
        ty = self.refclasses[cls].fields[field]
        name = self.E.uniq_name('hv%%%s.%s' % (cls, field))
        self.E.writes.add(('heap', cls, field))
        self.E.heap[(cls, field)] = lambda r: mk(ty, name, [r])

    def heap_set(self, cls, field, ref, v):
        E = self.E
        old = self.heap_get(cls, field)
        v = self.freeze(v)
        E.writes.add(('heap', cls, field))

        def new(r):
            return ite(eqn(r, ref), v, old(r))
        new.base, new.ref, new.val = old, ref, v
        E.heap[(cls, field)] = new

    def resolve(self, o):
        while isinstance(o, ObjV) and o.loc in self.E.forward:
            o = self.E.forward[o.loc]
        return o

    def ref_of_obj(self, o):
        """Promote an allocated object to a symbolic reference (fresh)."""
        E = self.E
        o = self.resolve(o)
        if isinstance(o, RefV):
            return o
        for nm, rc in self.refclasses.items():
            if rc.classv is o.cls:
                break
        else:
            raise Unsupported('object of %s stored in a symbolic structure' % o.cls.name)
        r = RefV(nm, E.fresh_int('new_' + nm.split('.')[-1]))
        on = getattr(self, 'on_promote', None)
        if on:
            on(r)
        flds = E.store[o.loc]
        E.forward[o.loc] = r
        for k, v in flds.items():
            if k in rc.fields:
                self.heap_set(nm, k, r.id, v)
            else:
                raise Unsupported('undeclared field %s.%s' % (nm, k))
        return r

    def getattr(self, o, name, default=None, has_default=False):
        E = self.E
        o = self.resolve(o)
        if isinstance(o, Opt):
            o = self.force(o, 'attribute %s of None' % name)
        if isinstance(o, ObjV):
            flds = E.store[o.loc]
            ok, v, k = self.class_attr_raw(o.cls, name)
            if ok and isinstance(v, PropV):
                return self.call(v.fget, [o], {})
            if name in flds:
                return self.wrap_field(o, name, flds[name])
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if ok:
                return self.bind(v, o, o.cls)
            ok, v, k = self.class_attr_raw(o.cls, '__getattr__')
            if ok:
                raise Unsupported('__getattr__')
        elif isinstance(o, RecV):
            ok, v, k = self.class_attr_raw(o.cls, name)
            if ok and isinstance(v, PropV):
                return self.call(v.fget, [o], {})
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return o.cls
            if ok:
                return self.bind(v, o, o.cls)
        elif isinstance(o, RefV):
            rc = self.refclasses[o.cls]
            if name in rc.attrs:
                return rc.attrs[name](self, o)
            if name in rc.fields:
                v = self.heap_get(o.cls, name)(o.id)
                return self.wrap_ref_field(o, name, v)
            if name in rc.methods:
                f = rc.methods[name]
                return Builtin('%s.%s' % (o.cls, name),
                               lambda I, args, kw, f=f, o=o: f(I, o, args, kw))
            if rc.classv is not None:
                if name == '__class__':
                    return rc.classv
                ok, v, k = self.class_attr_raw(rc.classv, name)
                if ok:
                    if isinstance(v, PropV):
                        return self.call(v.fget, [o], {})
                    return self.bind(v, o, rc.classv)
        elif isinstance(o, ClassV):
            ok, v, k = self.class_attr_raw(o, name)
            if name == '__name__':
                return o.name
            if ok:
                if isinstance(v, ClassMV):
                    return BoundV(v.f, o)
                if isinstance(v, StaticV):
                    return v.f
                return v
        elif isinstance(o, (Module, ExtModule)):
            return self.module_attr(o, name)
        elif isinstance(o, SuperV):
            mro = (o.self_.cls if isinstance(o.self_, (ObjV, RecV)) else
                   o.self_ if isinstance(o.self_, ClassV) else
                   self.refclasses[o.self_.cls].classv).mro()
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if isinstance(k, ClassV) and name in k.attrs:
                    _, v, _ = self.class_attr_raw(k, name)
                    if isinstance(v, PropV):
                        return self.call(v.fget, [o.self_], {})
                    return self.bind(v, o.self_, k)
            return Builtin('object.' + name, lambda I, a, kw: self.object_method(name, o.self_, a, kw))
        elif isinstance(o, PyCls):
            if name == '__name__':
                return o.name
            return Builtin(o.name + '.' + name, self.externals.get(o.name + '.' + name))
        elif isinstance(o, Builtin):
            full = o.name + '.' + name
            if full in self.externals:
                return self.externals[full]
            raise Unsupported('attribute %s of %r' % (name, o))
        elif isinstance(o, BoundV) or isinstance(o, FuncV):
            if name in ('__name__',):
                return (o.func if isinstance(o, BoundV) else o).name
        else:
            from . import builtins_ as B
            r = B.method(self, o, name)
            if r is not None:
                return r
        if has_default:
            return default
        raise PyExc(PyCls(AttributeError), why='%s of %r' % (name, o))

    def object_method(self, name, o, args, kw):
        if name == '__init__':
            return None
        if name == '__eq__':
            return self.eq(o, args[0], noobj=True)
        if name == '__setattr__':
            self.setattr(o, args[0], args[1])
            return None
        raise Unsupported('object.%s' % name)

    def wrap_field(self, o, name, v):
        """A frozen container stored in an object field becomes an lvalue."""
        if isinstance(v, ContV) and isinstance(v.lv, Frozen):
            return ContV(v.kind, AttrLV(o.loc, name))
        if isinstance(v, NDV) and isinstance(v.lv, Frozen):
            return NDV(AttrLV(o.loc, name), v.view, v.shape)
        return v

    def wrap_ref_field(self, o, name, v):
        if isinstance(v, ContV) and isinstance(v.lv, Frozen):
            return ContV(v.kind, FieldLV(o.cls, name, o.id))
        if isinstance(v, NDV) and isinstance(v.lv, Frozen):
            return NDV(FieldLV(o.cls, name, o.id), v.view, v.shape)
        return v

    def bind(self, v, o, cls):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMV):
            return BoundV(v.f, cls)
        return v

    def setattr(self, o, name, v):
        E = self.E
        o = self.resolve(o)
        if isinstance(o, Opt):
            o = self.force(o, 'attribute %s of None' % name)
        if isinstance(o, ObjV):
            ok, pv, k = self.class_attr_raw(o.cls, name)
            if ok and isinstance(pv, PropV):
                if pv.fset is None:
                    raise PyExc(PyCls(AttributeError), why="can't set " + name)
                self.call(pv.fset, [o, v], {})
                return
            E.store[o.loc] = dict(E.store[o.loc], **{name: v})
            E.writes.add(('loc', o.loc))
            return
        if isinstance(o, RefV):
            rc = self.refclasses[o.cls]
            if name in rc.fields:
                self.heap_set(o.cls, name, o.id, v)
                return
            if rc.classv is not None:
                ok, pv, k = self.class_attr_raw(rc.classv, name)
                if ok and isinstance(pv, PropV) and pv.fset is not None:
                    self.call(pv.fset, [o, v], {})
                    return
            raise Unsupported('write of undeclared field %s.%s' % (o.cls, name))
        if isinstance(o, ClassV):
            E.store[('cv', o.qual, name)] = (v,)
            E.writes.add(('cv', o.qual, name))
            return
        if o is None:
            raise PyExc(PyCls(AttributeError), why=name)
        raise Unsupported('setattr on %r' % (o,))

    # -- container contents ----------------------------------------------------------
    def read(self, lv):
        E = self.E
        if isinstance(lv, Frozen):
            return lv.content
        if isinstance(lv, Loc):
            return E.store[lv.id]
        if isinstance(lv, AttrLV):
            o = self.resolve(ObjV(lv.loc, None))
            if isinstance(o, RefV):
                return self.read(FieldLV(o.cls, lv.field, o.id))
            v = E.store[lv.loc][lv.field]
            if isinstance(v, (ContV, NDV)):
                return v.lv.content if isinstance(v.lv, Frozen) else self.read(v.lv)
            raise Unsupported('field %s changed kind' % lv.field)
        if isinstance(lv, FieldLV):
            v = self.heap_get(lv.cls, lv.field)(lv.ref)
            return v.lv.content
        if isinstance(lv, SubLV):
            self.check_epoch(lv)
            v = self.elem(self.read(lv.parent), lv.idx)
            return v.lv.content
        raise Unsupported('read %r' % lv)

    def root(self, lv):
        while isinstance(lv, SubLV):
            lv = lv.parent
        return lv

    def check_epoch(self, lv):
        if self.E.epochs.get(self.epoch_key(lv), 0) != lv.epoch:
            raise Unsupported('element reference used after its container was reorganised')

    def epoch_key(self, lv):
        r = self.root(lv)
        if isinstance(r, FieldLV):
            return ('field', r.cls, r.field)
        if isinstance(r, AttrLV):
            return ('attr', r.loc, r.field)
        if isinstance(r, Loc):
            return ('loc', r.id)
        return None

    def elem(self, content, idx):
        if isinstance(content, Seq):
            return content.get(idx)
        if isinstance(content, DictC):
            return self.dict_get_raw(content, idx)
        raise Unsupported('element of %r' % content)

    def write(self, lv, content, reorganise=False):
        E = self.E
        if reorganise:
            k = self.epoch_key(lv)
            E.epochs[k] = E.epochs.get(k, 0) + 1
        if isinstance(lv, Loc):
            E.store[lv.id] = content
            E.writes.add(('loc', lv.id))
        elif isinstance(lv, AttrLV):
            o = self.resolve(ObjV(lv.loc, None))
            if isinstance(o, RefV):
                return self.write(FieldLV(o.cls, lv.field, o.id), content)
            v = E.store[lv.loc][lv.field]
            if not isinstance(v.lv, Frozen):
                return self.write(v.lv, content)
            nv = ContV(v.kind, Frozen(content)) if isinstance(v, ContV) else \
                NDV(Frozen(content), v.view, v.shape)
            E.store[lv.loc] = dict(E.store[lv.loc], **{lv.field: nv})
            E.writes.add(('loc', lv.loc))
        elif isinstance(lv, FieldLV):
            v = self.heap_get(lv.cls, lv.field)(lv.ref)
            nv = ContV(v.kind, Frozen(content)) if isinstance(v, ContV) else \
                NDV(Frozen(content), v.view, v.shape)
            self.heap_set(lv.cls, lv.field, lv.ref, nv)
        elif isinstance(lv, SubLV):
            self.check_epoch(lv)
            pc = self.read(lv.parent)
            old = self.elem(pc, lv.idx)
            nv = ContV(old.kind, Frozen(content)) if isinstance(old, ContV) else \
                NDV(Frozen(content), old.view, old.shape)
            self.write(lv.parent, self.with_elem(pc, lv.idx, nv))
        elif isinstance(lv, Frozen):
            raise Unsupported('mutation of a value container (aliasing not tracked)')
        else:
            raise Unsupported('write %r' % lv)

    def with_elem(self, content, idx, v):
        if isinstance(content, Seq):
            if content.items is not None and isinstance(idx, int):
                its = list(content.items)
                its[idx] = v
                return Seq.of(its)
            return Seq(content.n, lambda k: ite(eqn(k, idx), v, content.get(k)))
        if isinstance(content, DictC):
            return self.dict_with(content, idx, v)
        raise Unsupported('with_elem')

    def freeze(self, v):
        """Value form (no identity) of containers; objects become references."""
        v = self.resolve(v)
        if isinstance(v, ContV):
            if isinstance(v.lv, Frozen):
                return v
            c = self.read(v.lv)
            return ContV(v.kind, Frozen(self.freeze_content(c)))
        if isinstance(v, NDV):
            if isinstance(v.lv, Frozen):
                return v
            from .nplib import nd
            a = nd(self, v)
            return NDV(Frozen(a), [('dim', i, 0) for i in range(len(a.shape))], a.shape)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, Opt):
            return Opt(v.none, self.freeze(v.val))
        if isinstance(v, ObjV):
            if v.loc < getattr(self.E, 'rec_mark', 1 << 60):
                for nm, rc in self.refclasses.items():
                    if rc.classv is v.cls:
                        return self.ref_of_obj(v)
            return v
        if isinstance(v, IterV):
            return ContV('list', Frozen(self.freeze_content(v.seq)))
        return v

    def freeze_content(self, c):
        if isinstance(c, Seq):
            if c.items is not None:
                return Seq.of([self.freeze(x) for x in c.items])
            return c
        if isinstance(c, DictC) and c.items is not None:
            return DictC(items=[(k, self.freeze(v)) for k, v in c.items])
        return c

    def to_rec(self, v, mark):
        """Objects/containers allocated after `mark` become index-dependent values."""
        E = self.E
        v = self.resolve(v)
        if isinstance(v, ObjV):
            if v.loc <= mark:
                return v
            return RecV(v.cls, {k: self.to_rec(x, mark) for k, x in E.store[v.loc].items()})
        if isinstance(v, ContV):
            if isinstance(v.lv, Loc) and v.lv.id <= mark:
                return v
            c = self.read(v.lv)
            if isinstance(c, Seq) and c.items is not None:
                c = Seq.of([self.to_rec(x, mark) for x in c.items])
            elif isinstance(c, DictC) and c.items is not None:
                c = DictC(items=[(k, self.to_rec(x, mark)) for k, x in c.items])
            return ContV(v.kind, Frozen(c))
        if isinstance(v, NDV):
            from .nplib import nd
            a = nd(self, v)
            return NDV(Frozen(a), [('dim', i, 0) for i in range(len(a.shape))], a.shape)
        if isinstance(v, tuple):
            return tuple(self.to_rec(x, mark) for x in v)
        if isinstance(v, Opt):
            return Opt(v.none, self.to_rec(v.val, mark))
        if isinstance(v, IterV):
            return ContV('list', Frozen(v.seq))
        if isinstance(v, Seq):
            return v
        return v

    def new_list(self, seq):
        loc = self.E.new_loc()
        self.E.store[loc] = seq
        return ContV('list', Loc(loc))

    def new_cont(self, kind, content):
        loc = self.E.new_loc()
        self.E.store[loc] = content
        return ContV(kind, Loc(loc))

    def E_list(self, v):
        """Seq of an ordered iterable value."""
        v = self.resolve(v)
        if isinstance(v, Opt):
            v = self.force(v, 'iteration over None')
        if isinstance(v, Seq):
            return v
        if isinstance(v, ContV):
            if v.kind in ('list', 'range'):
                return self.read(v.lv)
            if v.kind == 'dict':
                c = self.read(v.lv)
                if c.items is not None:
                    return Seq.of([k for k, _ in c.items])
                if c.meta.get('order') is not None:
                    return c.meta['order']
            if v.kind == 'set':
                c = self.read(v.lv)
                if c.items is not None:
                    if len(c.items) <= 1:
                        return Seq.of(c.items)
                    raise Unsupported('ordered use of a set')
            raise Unsupported('ordered iteration over a %s' % v.kind)
        if isinstance(v, tuple):
            return Seq.of(v)
        if isinstance(v, IterV):
            return v.seq
        if isinstance(v, NDV):
            from .nplib import nd, index_first
            a = nd(self, v)
            if len(a.shape) == 0:
                raise PyExc(PyCls(TypeError), why='iteration over a 0-d array')
            if isinstance(a.shape[0], int):
                return Seq.of([index_first(self, a, i) for i in range(a.shape[0])])
            return Seq(a.shape[0], lambda k: index_first(self, a, k))
        if isinstance(v, str):
            return Seq.of(list(v))
        if v is None:
            raise PyExc(PyCls(TypeError), why='None is not iterable')
        if isinstance(v, (ObjV, RefV, RecV)):
            raise Unsupported('iteration over object %r' % v)
        raise PyExc(PyCls(TypeError), why='%r is not iterable' % (v,))

    def force(self, v, why=''):
        """Value of an Opt that must not be None."""
        if isinstance(v, Opt):
            self.E.must(NOT(v.none), PyCls(AttributeError if 'attribute' in why else TypeError), why)
            return v.val
        return v

    def settle(self, v):
        """Decide whether an Opt is None."""
        if isinstance(v, Opt):
            return None if self.E.branch(v.none) else v.val
        return v

    # -- truth and equality --------------------------------------------------------
    def truth(self, v):
        """Python bool or z3 Bool."""
        v = self.resolve(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if is_z(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return v != 0
            if v.sort() == Str:
                return v != lit('')
            return True
        if isinstance(v, StrV):
            if any(isinstance(p, str) and p for p in v.pieces):
                return True
            raise Unsupported('truth of a symbolic string')
        if isinstance(v, Opt):
            if v.val is None:
                return False
            return AND(NOT(v.none), self.truth(v.val))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, ContV):
            if v.kind in ('list', 'range'):
                return lt(0, self.read(v.lv).n)
            from . import builtins_ as B
            return NOT(B.is_empty(self, v))
        if isinstance(v, NDV):
            from .nplib import nd
            a = nd(self, v)
            if len(a.shape) == 0:
                return self.truth(a.get())
            if all(isinstance(s, int) for s in a.shape):
                n = 1
                for s in a.shape:
                    n *= s
                if n == 1:
                    return self.truth(a.get(*[0] * len(a.shape)))
            raise PyExc(PyCls(ValueError), why='truth value of an array')
        if isinstance(v, (ObjV, RecV, RefV)):
            c = v.cls if not isinstance(v, RefV) else self.refclasses[v.cls].classv
            if isinstance(v, RefV) and '__bool__' in self.refclasses[v.cls].methods:
                return self.refclasses[v.cls].methods['__bool__'](self, v, [], {})
            if isinstance(c, ClassV):
                for nm in ('__bool__', '__len__'):
                    ok, f, _ = self.class_attr_raw(c, nm)
                    if ok:
                        return self.truth(self.call(self.bind(f, v, c), [], {}))
            return True
        if isinstance(v, NanV):
            return OR(v.isnan, self.truth(v.val))
        if isinstance(v, (FuncV, ClassV, Builtin, BoundV, Module, ExtModule, PyCls)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def eq(self, a, b, noobj=False):
        a, b = self.resolve(a), self.resolve(b)
        E = self.E
        if a is b and not isinstance(a, (NDV, NanV)) and not (isinstance(a, float) and a != a):
            return True
        if isinstance(a, NDV) or isinstance(b, NDV):
            from .nplib import elementwise
            return elementwise(self, lambda x, y: self.eq(x, y), a, b, 'b')
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Opt):
                return o.none if o.val is not None else True
            return self.obj_eq(o, None) if isinstance(o, (ObjV, RecV)) and not noobj else False
        if isinstance(a, Opt) or isinstance(b, Opt):
            an, av = (a.none, a.val) if isinstance(a, Opt) else (False, a)
            bn, bv = (b.none, b.val) if isinstance(b, Opt) else (False, b)
            if an is False or bn is False or True:
                e = self.eq(av, bv) if av is not None and bv is not None else False
                return OR(AND(an, bn), AND(NOT(an), NOT(bn), e))
        if isinstance(a, NanV) or isinstance(b, NanV):
            an, av = (a.isnan, a.val) if isinstance(a, NanV) else (False, a)
            bn, bv = (b.isnan, b.val) if isinstance(b, NanV) else (False, b)
            return AND(NOT(an), NOT(bn), self.eq(av, bv))
        if is_num(a) and is_num(b):
            if is_boolish(a) and is_boolish(b) and (is_z(a) or is_z(b)):
                if isinstance(a, bool):
                    return b if a else NOT(b)
                if isinstance(b, bool):
                    return a if b else NOT(a)
                return a == b
            return cmp('==', a, b)
        if is_str(a) and is_str(b):
            return self.str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return AND(*[self.truth(self.eq(x, y)) for x, y in zip(a, b)])
        if isinstance(a, (ObjV, RecV)) and not noobj:
            return self.obj_eq(a, b)
        if isinstance(b, (ObjV, RecV)) and not noobj:
            return self.obj_eq(b, a)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, RefV) and not isinstance(y, RefV) and '__eq__' in self.refclasses[x.cls].methods:
                return self.refclasses[x.cls].methods['__eq__'](self, x, [y], {})
        if isinstance(a, RefV) and isinstance(b, RefV):
            rc = self.refclasses[a.cls]
            if rc.eq is not None and a.cls == b.cls:
                return rc.eq(self, a, b)
            if a.cls == b.cls or rc.isa and rc.isa == self.refclasses[b.cls].isa:
                return eqn(a.id, b.id)
            return False
        if isinstance(a, (ObjV, RecV)) and isinstance(b, (ObjV, RecV)) and noobj:
            return isinstance(a, ObjV) and isinstance(b, ObjV) and a.loc == b.loc
        if isinstance(a, ContV) and isinstance(b, ContV):
            if a.kind != b.kind:
                return False
            x, y = self.read(a.lv), self.read(b.lv)
            return self.cont_eq(a.kind, x, y)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.cont_eq('list', a, b)
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return True if a.eq(b) else a == b
        if isinstance(a, Builtin) and isinstance(b, Builtin) and a.name.startswith('dtype:'):
            return a.name == b.name
        if isinstance(a, (ClassV, PyCls, FuncV, Builtin)) or isinstance(b, (ClassV, PyCls, FuncV)):
            return a is b
        ka, kb = self.kindof(a), self.kindof(b)
        if ka and kb and ka != kb:
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def kindof(self, v):
        if is_num(v): return 'num'
        if is_str(v): return 'str'
        if isinstance(v, tuple): return 'tuple'
        if isinstance(v, ContV): return v.kind
        if isinstance(v, (ObjV, RefV, RecV)): return 'obj'
        if v is None: return 'none'
        if is_z(v): return str(v.sort())
        return None

    def cont_eq(self, kind, x, y):
        E = self.E
        if kind in ('list', 'range'):
            if x.items is not None and y.items is not None:
                if len(x.items) != len(y.items):
                    return False
                return AND(*[self.truth(self.eq(p, q)) for p, q in zip(x.items, y.items)])
            ne = eqn(x.n, y.n)
            if ne is False:
                return False
            f = E.fa_expr(ALL(x.n, lambda k: self.truth(self.eq(x.get(k), y.get(k)))))
            return AND(ne, f)
        if kind == 'set':
            if x.items is not None and y.items is not None:
                return AND(*([y.mem(i) for i in x.items] + [x.mem(i) for i in y.items]))
            ty = x.elty or y.elty
            if ty is None:
                raise Unsupported('equality of sets of unknown element type')
            es, mkv, ks = self.elem_var(ty)
            return z3.ForAll(ks, boolx(x.mem(mkv)) == boolx(y.mem(mkv)))
        if kind == 'dict':
            if x.items is not None and y.items is not None:
                if len(x.items) != len(y.items):
                    return False
                out = []
                for k, v in x.items:
                    m = [w for q, w in y.items if self.truth(self.eq(k, q)) is True]
                    if len(m) != 1:
                        if any(self.truth(self.eq(k, q)) is not False for q, w in y.items):
                            raise Unsupported('dict equality with symbolic keys')
                        return False
                    out.append(self.truth(self.eq(v, m[0])))
                return AND(*out)
            if x.has is not None and y.has is not None and x.kty is not None:
                es, mkv, ks = self.elem_var(x.kty)
                with E.bound(ks, True):
                    e = self.truth(self.eq(x.get(mkv), y.get(mkv)))
                    body = AND(boolx(x.has(mkv)) == boolx(y.has(mkv)), IMP(x.has(mkv), e))
                return z3.ForAll(ks, boolx(body))
        raise Unsupported('equality of %s' % kind)

    def elem_var(self, ty):
        """(sorts, value, consts) of a bound element variable of type ty."""
        E = self.E
        if isinstance(ty, TTup):
            parts = [self.elem_var(t) for t in ty.ts]
            return [x for p in parts for x in p[0]], tuple(p[1] for p in parts), [x for p in parts for x in p[2]]
        k = z3.Const(E.fresh_name('ev'), sort_of(ty))
        v = RefV(ty.cls, k) if isinstance(ty, TRef) else k
        return [k.sort()], v, [k]

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        pa, pb = norm_pieces([a]), norm_pieces([b])
        # strip common prefix / suffix
        while pa and pb and not isinstance(pa[0], str) and not isinstance(pb[0], str) and \
                pa[0].eq(pb[0]):
            pa, pb = pa[1:], pb[1:]
        while pa and pb and not isinstance(pa[-1], str) and not isinstance(pb[-1], str) and \
                pa[-1].eq(pb[-1]):
            pa, pb = pa[:-1], pb[:-1]
        if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            x, y = pa[0], pb[0]
            m = min(len(x), len(y))
            if x[:m] != y[:m]:
                return False
            pa = ([x[m:]] if x[m:] else []) + pa[1:]
            pb = ([y[m:]] if y[m:] else []) + pb[1:]
            return self.str_eq(mkstr(pa), mkstr(pb)) if (pa or pb) else True
        if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
            x, y = pa[-1], pb[-1]
            m = min(len(x), len(y))
            if x[-m:] != y[-m:]:
                return False
            pa = pa[:-1] + ([x[:-m]] if x[:-m] else [])
            pb = pb[:-1] + ([y[:-m]] if y[:-m] else [])
            return self.str_eq(mkstr(pa), mkstr(pb)) if (pa or pb) else True
        if not pa and not pb:
            return True
        if (not pa or not pb) and any(isinstance(p, str) for p in pa + pb):
            return False
        return str_term(mkstr(pa)) == str_term(mkstr(pb))

    def obj_eq(self, a, b):
        if isinstance(b, (ObjV, RecV)) and b.cls is not a.cls and a.cls in b.cls.mro():
            a, b = b, a         # a more specific class answers first
        ok, f, k = self.class_attr_raw(a.cls, '__eq__')
        if ok:
            return self.truth(self.call(self.bind(f, a, a.cls), [b], {}))
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            ok, f, k = self.class_attr_raw(b.cls, '__eq__')
            if ok and a.loc != b.loc:
                return self.truth(self.call(self.bind(f, b, b.cls), [a], {}))
            return a.loc == b.loc
        if isinstance(b, (RecV,)) or isinstance(a, RecV):
            raise Unsupported('identity of an index-dependent object')
        return False

    def isinst(self, v, c):
        v = self.resolve(v)
        if isinstance(c, tuple):
            return OR(*[self.isinst(v, x) for x in c])
        if isinstance(v, Opt):
            return AND(NOT(v.none), self.isinst(v.val, c))
        if isinstance(c, ClassV):
            if isinstance(v, (ObjV, RecV)):
                return c in v.cls.mro()
            if isinstance(v, RefV):
                rc = self.refclasses[v.cls]
                if rc.isa is not None:
                    r = rc.isa(self, v, c)
                    if r is not None:
                        return r
                if rc.classv is not None:
                    return c in rc.classv.mro()
                raise Unsupported('isinstance of abstract %s' % v.cls)
            return False
        if isinstance(c, PyCls):
            if isinstance(v, (ObjV, RecV)):
                return c in v.cls.mro() or c.c is object
            if v is None:
                return c.c in (type(None), object)
            if is_boolish(v):
                return c.c in (bool, int, object)
            if is_num(v):
                if is_intish(v):
                    return c.c in (int, object)
                return c.c in (float, object)
            if is_str(v):
                return c.c in (str, object)
            if isinstance(v, tuple):
                return c.c in (tuple, object)
            if isinstance(v, ContV):
                return c.c in ({'list': list, 'set': set, 'dict': dict, 'range': range}[v.kind], object)
            if isinstance(v, (NDV, RefV, FuncV, BoundV, ClassV)):
                return c.c is object
            if is_z(v):
                rcv = getattr(self, 'obj_isa', None)
                if rcv:
                    return rcv(v, c)
        if isinstance(c, (Builtin, ExtModule)):
            f = self.externals.get('isinstance:' + c.name)
            if f is not None:
                return f(self, v)
        raise Unsupported('isinstance(%r, %r)' % (v, c))

    # -- calls -------------------------------------------------------------------
    def call(self, f, args, kw):
        E = self.E
        if isinstance(f, Opt):
            f = self.force(f, 'call of None')
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kw) if not isinstance(f.func, Builtin) \
                else self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if isinstance(f, Builtin):
            if f.fn is None:
                raise Unsupported('external %s' % f.name)
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, FuncV):
            ct = self.contracts.get(f.qual)
            if ct is not None and f.qual not in self.force_inline and \
                    not (self.verifying == f.qual and self.verify_depth == 0):
                self.used.add(f.qual)
                return ct.apply(self, f, list(args), dict(kw))
            if self.verifying == f.qual:
                self.verify_depth += 1
                try:
                    return self.run_func(f, args, kw)
                finally:
                    self.verify_depth -= 1
            self.inlined.add(f.qual)
            return self.run_func(f, args, kw)
        if isinstance(f, PyCls):
            x = self.externals.get('call:' + f.name)
            if x is not None:
                return x(self, list(args), kw)
            if issubclass(f.c, BaseException):
                return ExcV(f, tuple(args))
            raise Unsupported('call of %s' % f.name)
        if isinstance(f, (ObjV, RecV, RefV)):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kw)
        if isinstance(f, ExtModule):
            raise Unsupported('external %s' % f.name)
        raise PyExc(PyCls(TypeError), why='%r is not callable' % (f,))

    def instantiate(self, c, args, kw):
        E = self.E
        ct = self.contracts.get(c.module.name + ':' + c.cname)
        if ct is not None and c.qual not in self.force_inline and \
                not (self.verifying == c.module.name + ':' + c.cname):
            self.used.add(c.module.name + ':' + c.cname)
            return ct.apply(self, c, list(args), dict(kw))
        ok, f, k = self.class_attr_raw(c, '__new__')
        if ok:
            raise Unsupported('__new__')
        o = self.alloc(c)
        ok, f, k = self.class_attr_raw(c, '__init__')
        if ok:
            self.call(self.bind(f, o, c), args, kw)
        elif any(isinstance(b, PyCls) and issubclass(b.c, BaseException) for b in c.mro()):
            E.store[o.loc] = dict(E.store[o.loc], args=tuple(args))
        elif args or kw:
            if any(isinstance(b, (ExtModule, Builtin)) for b in c.mro()):
                raise Unsupported('constructor of external base')
            raise PyExc(PyCls(TypeError), why='%s() takes no arguments' % c.name)
        return o

    def bind_args(self, f, args, kw):
        """dict of local values for a call."""
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            raise PyExc(PyCls(TypeError), why='too many arguments for %s' % f.name)
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in loc:
                    raise PyExc(PyCls(TypeError), why='duplicate argument %s' % k)
                loc[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyExc(PyCls(TypeError), why='unexpected argument %s for %s' % (k, f.name))
        if a.kwarg:
            loc[a.kwarg.arg] = self.new_cont('dict', DictC(items=list(extra.items())))
        # defaults
        fr = f.frame if f.frame is not None else self.module_frame(f.module)
        if f.cls is not None and f.frame is None:
            fr = Frame(('cls', f.cls.qual), _ClassScope(f.cls), None, f.module, set())
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyExc(PyCls(TypeError), why='missing argument %s for %s' % (n, f.name))
                loc[n] = self.default_value(f, ('d', j), a.defaults[j], fr)
        for i, n in enumerate(kwn):
            if n not in loc:
                if a.kw_defaults[i] is None:
                    raise PyExc(PyCls(TypeError), why='missing argument %s' % n)
                loc[n] = self.default_value(f, ('k', i), a.kw_defaults[i], fr)
        return loc

    def default_value(self, f, key, node, fr):
        # defaults are evaluated once: the same object on every call
        k = ('dv', f.node, key)
        if k not in self.E.store:
            self.E.store[k] = self.ev(node, fr)
        return self.E.store[k]

    def run_func(self, f, args, kw):
        E = self.E
        loc = self.bind_args(f, args, kw)
        if E.depth > self.MAXDEPTH or E.callstack.count(f.qual) > 6:
            raise Unsupported('recursion of %s without a contract' % f.name)
        names, nonl = local_names(f.node)
        fid = ('fr', E.new_loc())
        E.store[fid] = loc
        fr = Frame(fid, f.frame, f, f.module, names, nonl)
        if is_gen(f.node):
            return self.run_generator(f, fr)
        E.depth += 1
        E.callstack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            E.depth -= 1
            if E.callstack:
                E.callstack.pop()

    def run_generator(self, f, fr):
        """Generators are run eagerly into the list of yielded values (sound for
        generators whose consumer does not interleave effects with them)."""
        E = self.E
        acc = self.new_list(Seq.of([]))
        E.store[fr.fid] = dict(E.store[fr.fid], **{'<yield>': acc})
        E.depth += 1
        E.callstack.append(f.qual)
        try:
            try:
                self.block(f.node.body, fr)
            except Ret:
                pass
        finally:
            E.depth -= 1
            if E.callstack:
                E.callstack.pop()
        return IterV(self.read(acc.lv))

    # -- names -------------------------------------------------------------------
    def lookup(self, name, fr):
        E = self.E
        f = fr
        while f is not None:
            if isinstance(f, _ClassScope):
                ok, v, k = self.class_attr_raw(f.cls, name) if name in f.cls.attrs else (False, 0, 0)
                if ok:
                    return v
                f = None
                break
            d = E.store.get(f.fid)
            if d is not None and name in d:
                v = d[name]
                if v is UNDEF:
                    raise Unsupported('variable %s may be undefined here' % name)
                return v
            if name in f.locs and f is fr:
                raise PyExc(PyCls(UnboundLocalError), why=name)
            f = f.parent
        m = fr.module
        if name in m.defs:
            return self.module_attr(m, name)
        if ('gv', m.name, name) in E.store:
            return E.store[('gv', m.name, name)]
        if name in self.externals:
            return self.externals[name]
        if name == '__name__':
            return m.name
        if hasattr(_b, name) and isinstance(getattr(_b, name), type):
            return PyCls(getattr(_b, name))
        raise PyExc(PyCls(NameError), why=name)

    def assign_name(self, name, v, fr):
        E = self.E
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and not isinstance(f, _ClassScope):
                if name in E.store.get(f.fid, ()):
                    E.store[f.fid] = dict(E.store[f.fid], **{name: v})
                    E.writes.add(('var', f.fid, name))
                    return
                f = f.parent
            raise Unsupported('global assignment to %s' % name)
        E.store[fr.fid] = dict(E.store.get(fr.fid, {}), **{name: v})
        E.writes.add(('var', fr.fid, name))

    # -- statements ----------------------------------------------------------------
    def block(self, stmts, fr):
        for st in stmts:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.ev(st.value.value, fr) if st.value.value is not None else None
            self.do_yield(v, fr)
            return
        if isinstance(st.value, ast.YieldFrom):
            v = self.ev(st.value.value, fr)
            self.do_yield_from(v, fr)
            return
        self.ev(st.value, fr)

    def do_yield(self, v, fr):
        acc = self.lookup('<yield>', fr)
        s = self.read(acc.lv)
        from . import builtins_ as B
        self.write(acc.lv, B.seq_append(s, self.freeze(self.settle(v))))

    def do_yield_from(self, v, fr):
        acc = self.lookup('<yield>', fr)
        s = self.read(acc.lv)
        from . import builtins_ as B
        self.write(acc.lv, B.seq_concat(s, self.E_list(v)))

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            self.assign_name(a.asname or a.name.split('.')[0],
                             self.module(a.name if a.asname else a.name.split('.')[0]), fr)

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            full = st.module
            if st.level:
                pkg = fr.module.name.split('.')
                full = '.'.join(pkg[:len(pkg) - st.level] + ([st.module] if st.module else []))
            self.assign_name(a.asname or a.name, self.module_attr(self.module(full), a.name), fr)

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, fr.module, None,
                           (fr.func.qual.split(':')[1] + '.<locals>.') if fr.func else '')
        if st.decorator_list:
            raise Unsupported('decorated local function')
        self.assign_name(st.name, f, fr)

    def s_Nonlocal(self, st, fr):
        pass

    def s_Global(self, st, fr):
        raise Unsupported('global statement')

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        from . import builtins_ as B
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            rhs = self.ev(st.value, fr)
            r = B.inplace(self, op, cur, rhs)
            if r is not B.DONE:
                self.assign_name(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            rhs = self.ev(st.value, fr)
            r = B.inplace(self, op, cur, rhs)
            if r is not B.DONE:
                self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i)
            rhs = self.ev(st.value, fr)
            if isinstance(cur, NDV) and isinstance(o, NDV):
                r = B.binop(self, op, cur, rhs)
                self.setitem(o, i, r)
                return
            r = B.inplace(self, op, cur, rhs)
            if r is not B.DONE:
                self.setitem(o, i, r)
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.E_list(self.settle(v))
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            self.E.must(eqn(s.n, n), PyCls(ValueError), 'unpacking')
            for i, x in enumerate(t.elts):
                self.assign(x, self.item_of(v, s, i), fr)
        else:
            raise Unsupported('assignment target')

    def item_of(self, v, s, i):
        if isinstance(v, (ContV, NDV)):
            return self.getitem(v, i)
        return s.get(i)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                d = dict(self.E.store[fr.fid])
                d.pop(t.id, None)
                self.E.store[fr.fid] = d
            elif isinstance(t, ast.Subscript):
                from . import builtins_ as B
                B.delitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported('del')

    def s_Return(self, st, fr):
        raise Ret(self.ev(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise Brk()

    def s_Continue(self, st, fr):
        raise Cont_()

    def s_If(self, st, fr):
        c = self.cond(st.test, fr)
        if self.E.branch(c):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def cond(self, e, fr):
        return self.truth(self.ev(e, fr))

    def s_Assert(self, st, fr):
        c = self.cond(st.test, fr)
        self.E.must(c, PyCls(AssertionError), 'assert')

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = self.E.store.get(('exc', fr.fid))
            if cur is None:
                raise Unsupported('bare raise')
            raise cur
        v = self.ev(st.exc, fr)
        raise self.to_exc(v)

    def to_exc(self, v):
        v = self.resolve(v)
        if isinstance(v, ExcV):
            return PyExc(v.cls, v.args, v)
        if isinstance(v, (PyCls,)):
            return PyExc(v, (), None)
        if isinstance(v, ClassV):
            o = self.instantiate(v, [], {})
            return PyExc(v, (), o)
        if isinstance(v, ObjV):
            return PyExc(v.cls, (), v)
        if isinstance(v, Builtin) and v.name == 'NotImplemented':
            return PyExc(PyCls(TypeError), (), None, 'raise NotImplemented')
        raise Unsupported('raise %r' % (v,))

    def exc_matches(self, e, c):
        if isinstance(c, tuple):
            return any(self.exc_matches(e, x) for x in c)
        ec = e.cls
        if isinstance(ec, str):
            ec = PyCls(getattr(_b, ec))
        if isinstance(ec, PyCls):
            return isinstance(c, PyCls) and issubclass(ec.c, c.c)
        if isinstance(ec, ClassV):
            for k in ec.mro():
                if k is c:
                    return True
                if isinstance(k, PyCls) and isinstance(c, PyCls) and issubclass(k.c, c.c):
                    return True
            return False
        if isinstance(ec, (Builtin, ExtModule)):
            return ec is c or (isinstance(c, PyCls) and c.c is Exception)
        raise Unsupported('exception class %r' % (ec,))

    def s_Try(self, st, fr):
        E = self.E
        def handled():
            try:
                self.block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    hc = self.ev(h.type, fr) if h.type is not None else None
                    if hc is None or self.exc_matches(e, hc):
                        if h.name:
                            self.assign_name(h.name, e.obj if e.obj is not None
                                             else ExcV(e.cls, e.args_), fr)
                        E.store[('exc', fr.fid)] = e
                        self.block(h.body, fr)
                        return
                raise
            else:
                self.block(st.orelse, fr)
        if not st.finalbody:
            handled()
            return
        try:
            handled()
        except (PyExc, Ret, Brk, Cont_):
            self.block(st.finalbody, fr)
            raise
        self.block(st.finalbody, fr)

    def s_With(self, st, fr):
        mgrs = []
        for it in st.items:
            m = self.ev(it.context_expr, fr)
            v = self.call(self.getattr(m, '__enter__'), [], {})
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)

        def leave():
            for m in reversed(mgrs):
                self.call(self.getattr(m, '__exit__'), [None, None, None], {})
        try:
            self.block(st.body, fr)
        except (PyExc, Ret, Brk, Cont_):
            leave()
            raise
        leave()

    def s_For(self, st, fr):
        from . import loops
        loops.for_loop(self, st, fr)

    def s_While(self, st, fr):
        from . import loops
        loops.while_loop(self, st, fr)

    # -- expressions -----------------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            return ELLIPSIS
        if isinstance(e.value, bytes):
            raise Unsupported('bytes')
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.ev_elts(e.elts, fr))

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.E_list(self.ev(x.value, fr))
                if s.items is None:
                    raise Unsupported('star of symbolic length')
                out.extend(s.items)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            from . import builtins_ as B
            s = Seq.of([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    s = B.seq_concat(s, self.E_list(self.ev(x.value, fr)))
                else:
                    s = B.seq_append(s, self.ev(x, fr))
            return self.new_list(s)
        return self.new_list(Seq.of(self.ev_elts(e.elts, fr)))

    def e_Set(self, e, fr):
        from . import builtins_ as B
        return B.make_set(self, Seq.of(self.ev_elts(e.elts, fr)))

    def e_Dict(self, e, fr):
        c = DictC(items=[])
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.read(self.ev(v, fr).lv)
                if src.items is None:
                    raise Unsupported('** of symbolic dict')
                for kk, vv in src.items:
                    c = self.dict_with(c, kk, vv)
                continue
            kv = self.ev(k, fr)
            c = self.dict_with(c, kv, self.ev(v, fr))
        return self.new_cont('dict', c)

    def concrete_key(self, k):
        return k is None or isinstance(k, (bool, int, str)) or \
            isinstance(k, tuple) and all(self.concrete_key(x) for x in k)

    def dict_with(self, c, k, v):
        k = self.resolve(k)
        if c.items is not None:
            its = list(c.items)
            for i, (q, _) in enumerate(its):
                r = self.truth(self.eq(q, k))
                if r is True:
                    its[i] = (q, v)
                    return DictC(items=its)
                if r is not False:
                    break
            else:
                if self.concrete_key(k) or len(its) < 8 and not is_z(k) and \
                        not isinstance(k, (RefV, StrV, tuple)) or not its and not (
                            is_z(k) or isinstance(k, (RefV, tuple))):
                    return DictC(items=its + [(k, v)])
                if all(self.truth(self.eq(q, k)) is False for q, _ in its) and its:
                    return DictC(items=its + [(k, v)])
            c = self.dict_sym(c)
        has, get = c.has, c.get
        v = self.freeze(v)
        kty = c.kty or self.type_of(k)

        def nget(x):
            e = self.truth(self.eq(x, k))
            if e is True or get is None:
                return v
            if e is False:
                return get(x)
            return ite(e, v, get(x))
        return DictC(has=lambda x: OR(self.truth(self.eq(x, k)), has(x)), get=nget, kty=kty)

    def type_of(self, k):
        if isinstance(k, tuple):
            return TTup(*[self.type_of(x) for x in k])
        if isinstance(k, RefV):
            return TRef(k.cls)
        if is_str(k):
            return TStr
        if is_z(k) or isinstance(k, (int, float)):
            t = z(k)
            for ty in (TInt, TReal, TBool, TStr, TObj):
                if t.sort() == ty.sort:
                    return ty
        return None

    def dict_sym(self, c):
        if c.items is None:
            return c
        its = list(c.items)

        def has(x):
            return OR(*[self.truth(self.eq(x, k)) for k, _ in its])

        def get(x):
            if not its:
                raise Unsupported('read of an empty dict')
            r = self.freeze(its[-1][1])
            for k, v in reversed(its[:-1]):
                r = ite(boolx(self.truth(self.eq(x, k))), self.freeze(v), r)
            return r
        return DictC(has=has, get=get if its else None,
                     kty=self.type_of(its[0][0]) if its else None)

    def dict_has(self, c, k):
        if c.items is not None:
            return OR(*[self.truth(self.eq(q, k)) for q, _ in c.items])
        return c.has(k)

    def dict_get_raw(self, c, k):
        if c.items is not None:
            hits = []
            for q, v in c.items:
                r = self.truth(self.eq(q, k))
                if r is True:
                    return v
                if r is not False:
                    hits.append((r, v))
            if not hits:
                raise PyExc(PyCls(KeyError), why=str(k))
            v = hits[-1][1]
            for r, w in reversed(hits[:-1]):
                v = ite(r, self.freeze(w), self.freeze(v))
            return v
        return c.get(k)

    def e_JoinedStr(self, e, fr):
        from . import builtins_ as B
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(y.value for y in v.format_spec.values
                                   if isinstance(y, ast.Constant))
                ps.append(B.format_value(self, x, spec))
        return mkstr(ps)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Lambda(self, e, fr):
        f = FuncV(e, fr, fr.module, None, '<lambda>')
        f.qual = fr.module.name + ':<lambda>@%d' % e.lineno
        return f

    def e_IfExp(self, e, fr):
        c = self.cond(e.test, fr)
        E = self.E
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, fr)
        # try to merge the two arms
        r = self.try_merge(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))
        if r is not NOPE:
            return r
        if E.branch(c):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def try_merge(self, c, ta, tb):
        """Value of (ta if c else tb) without forking, when both are pure."""
        E = self.E
        base = dict(E.store)
        try:
            def arm(cond, t):
                def th():
                    E.assume(cond, 'c')
                    if not E.feasible(z3.BoolVal(True)):
                        raise PathEnd()
                    return t()
                return E.sub_explore(th)
            oa, ob = arm(c, ta), arm(NOT(c), tb)
            outs = oa + ob
            if not outs or any(o.kind != 'ok' for o in outs) or not E.pure(outs):
                return NOPE
            if len(outs) > 6:
                return NOPE
            for o in outs:
                if isinstance(o.val, (ContV, NDV, ObjV)) and len(outs) > 1:
                    return NOPE
            v = E.merge(outs)
        except CannotMerge:
            return NOPE
        E.adopt(outs, base)
        E.keep_facts(outs)
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values, fr)

    def boolop(self, isand, vals, fr):
        E = self.E
        v = self.ev(vals[0], fr)
        if len(vals) == 1:
            return v
        t = self.truth(v)
        if isinstance(t, bool):
            if t == isand:
                return self.boolop(isand, vals[1:], fr)
            return v
        # merge when the rest is a pure boolean
        if is_boolish(v):
            base = dict(E.store)

            def th():
                E.assume(t if isand else NOT(t), 'c')
                if not E.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                return self.boolop(isand, vals[1:], fr)
            try:
                outs = E.sub_explore(th)
                if not outs:
                    E.assume(NOT(t) if isand else t)
                    return not isand
                if all(o.kind == 'ok' and is_boolish(o.val) for o in outs) and E.pure(outs) \
                        and len(outs) <= 6:
                    r = boolx(outs[-1].val)
                    for o in reversed(outs[:-1]):
                        r = ite(boolx(AND(*[c for q, c in o.pc if q == 'c'][1:])), boolx(o.val), r)
                    E.adopt(outs, base)
                    E.keep_facts(outs)
                    return AND(t, r) if isand else OR(t, r)
            except CannotMerge:
                pass
        if E.branch(t) == isand:
            return self.boolop(isand, vals[1:], fr)
        return v

    def e_UnaryOp(self, e, fr):
        from . import builtins_ as B
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(v))
        if isinstance(e.op, ast.USub):
            return B.unary_neg(self, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return B.unary_invert(self, v)

    def e_BinOp(self, e, fr):
        from . import builtins_ as B
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return B.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        from . import builtins_ as B
        left = self.ev(e.left, fr)
        if len(e.ops) == 1:
            return B.compare(self, type(e.ops[0]).__name__, left, self.ev(e.comparators[0], fr))
        out = []
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            r = self.truth(B.compare(self, type(op).__name__, left, right))
            if r is False:
                return False
            out.append(r)
            left = right
        return AND(*out)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fr) if x is not None else None
                            for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def getitem(self, o, i):
        from . import builtins_ as B
        return B.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import builtins_ as B
        return B.setitem(self, o, i, v)

    def e_Call(self, e, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if e.args:
                return SuperV(self.ev(e.args[0], fr), self.ev(e.args[1], fr))
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            selfname = f.func.node.args.args[0].arg
            return SuperV(f.func.cls, self.lookup(selfname, f))
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                s = self.E_list(v)
                if s.items is None:
                    args.append(StarSeq(s))
                else:
                    args.extend(s.items)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                c = self.read(self.ev(k.value, fr).lv)
                if c.items is None:
                    raise Unsupported('** of symbolic dict')
                for kk, vv in c.items:
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    # -- comprehensions ----------------------------------------------------------------
    def e_ListComp(self, e, fr):
        return self.new_list(self.comp(e.generators, e.elt, fr))

    def e_GeneratorExp(self, e, fr):
        return IterV(self.comp(e.generators, e.elt, fr))

    def e_SetComp(self, e, fr):
        from . import builtins_ as B
        u = self.comp_set(e.generators, e.elt, fr)
        if u is not None:
            return u
        return B.make_set(self, self.comp(e.generators, e.elt, fr))

    def e_DictComp(self, e, fr):
        from . import builtins_ as B
        k = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        u = self.comp_dict(e, fr)
        if u is not None:
            return u
        s = self.comp(e.generators, k, fr)
        return B.dict_from_pairs(self, s)

    def comp_frame(self, fr, names):
        fid = ('fr', self.E.new_loc())
        self.E.store[fid] = {}
        self._comp_frames.add(fid)
        return Frame(fid, fr, fr.func, fr.module, set())

    def comp(self, gens, elt, fr):
        """Seq of the elements of a comprehension."""
        E = self.E
        cf = self.comp_frame(fr, None)
        it = self.ev(gens[0].iter, fr)
        return self.comp_gen(gens, 0, it, elt, cf)

    def comp_gen(self, gens, gi, it, elt, cf):
        from . import builtins_ as B
        g = gens[gi]
        it = self.settle(it)
        if isinstance(it, ContV) and it.kind in ('set', 'dict') and self.read(it.lv).items is None \
                and self.read(it.lv).meta.get('order') is None:
            return B.unordered_comp(self, gens, gi, it, elt, cf)
        if isinstance(it, UnordV):
            return B.unordered_comp(self, gens, gi, it, elt, cf)
        if isinstance(it, ContV) and it.kind == 'set' and len(self.read(it.lv).items) > 1:
            return B.unordered_comp(self, gens, gi, it, elt, cf)
        s = self.E_list(it)

        def item(k):
            if isinstance(it, (ContV, NDV)) and not (isinstance(it, ContV) and it.kind != 'list'):
                return self.elem_lv(it, s, k)
            return s.get(k)
        last = gi == len(gens) - 1
        if s.items is not None:
            out = Seq.of([])
            for k in range(len(s.items)):
                self.assign(g.target, item(k), cf)
                keep = True
                for c in g.ifs:
                    if not self.E.branch(self.cond(c, cf)):
                        keep = False
                        break
                if not keep:
                    continue
                if last:
                    out = B.seq_append(out, self.ev(elt, cf))
                else:
                    it2 = self.ev(gens[gi + 1].iter, cf)
                    out = B.seq_concat(out, self.comp_gen(gens, gi + 1, it2, elt, cf))
            return out
        if g.ifs:
            return B.filter_comp(self, gens, gi, s, item, elt, cf)

        def body(k):
            self.assign(g.target, item(k), cf)
            if last:
                return self.ev(elt, cf)
            it2 = self.ev(gens[gi + 1].iter, cf)
            return ContV('list', Frozen(self.comp_gen(gens, gi + 1, it2, elt, cf)))
        r = self.map_seq(s.n, body)
        if r is IMPURE:
            return self.comp_as_loop(gens, gi, s, item, elt, cf)
        if last:
            return r
        return B.flatten(self, Seq(r.n, lambda k: r.get(k).lv.content))

    def comp_as_loop(self, gens, gi, s, item, elt, cf):
        """A comprehension with side effects, as the equivalent loop."""
        from . import loops, builtins_ as B
        if gi != len(gens) - 1:
            raise Unsupported('nested comprehension with side effects')
        acc = self.new_list(Seq.of([]))
        g = gens[gi]
        self.assign_name('$acc', acc, cf)      # invariants refer to it as st.var('$acc')

        def step(k):
            self.assign(g.target, item(k), cf)
            v = self.ev(elt, cf)
            cur = self.read(acc.lv)
            self.write(acc.lv, B.seq_append(cur, v))
        loops.run_loop(self, s.n, step, cf, [g.target], label='comprehension', seq=s)
        return self.read(acc.lv)

    def elem_lv(self, it, s, k):
        """Element of a container as an lvalue when it is itself a container."""
        v = s.get(k)
        if isinstance(it, ContV) and isinstance(v, (ContV, NDV)) and isinstance(v.lv, Frozen) \
                and not isinstance(it.lv, Frozen):
            sl = SubLV(it.lv, k, self.E.epochs.get(self.epoch_key(it.lv), 0))
            return ContV(v.kind, sl) if isinstance(v, ContV) else NDV(sl, v.view, v.shape)
        return v

    def map_seq(self, n, body):
        """Seq(n, k -> body(k)) where body is evaluated once at a symbolic index.
        Returns IMPURE when body changes existing state."""
        E = self.E
        if isinstance(n, int):
            return Seq.of([body(k) for k in range(n)])
        k = z3.Const(E.fresh_name('k'), z3.IntSort())
        rng = z3.And(0 <= k, k < n)
        mark = E.nloc
        base = dict(E.store)
        bs = None
        with E.bound([k], rng):
            def th():
                if not E.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                v = body(k)
                return self.to_rec(v, mark)
            outs = E.sub_explore(th)
            oks = [o for o in outs if o.kind == 'ok']
            excs = [o for o in outs if o.kind == 'exc']
            if any(o.kind not in ('ok', 'exc') for o in outs):
                raise Unsupported('control flow in comprehension')
            if not self.pure_but_frames(outs, base):
                return IMPURE
            E.keep_facts(outs)
            # conditions of the exceptional outcomes
            exconds = [(o, boolx(o.cond)) for o in excs]
            val = UNDEF
            if oks:
                val = oks[-1].val
                for o in reversed(oks[:-1]):
                    val = ite(boolx(o.cond), o.val, val)
        if exconds:
            i = E.choose(len(exconds) + 1)
            if i < len(exconds):
                o, c = exconds[i]
                w = E.fresh_int('w')
                E.assume(z3.And(0 <= w, w < n), 'c')
                E.assume(z3.substitute(c, (k, w)), 'c')
                if not E.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                raise o.val
            for o, c in exconds:
                E.assume(z3.ForAll([k], z3.Implies(rng, z3.Not(c))), 'c')
        if val is UNDEF:
            if not outs:
                # no index is possible: the sequence is empty
                E.assume(n == 0)
                return Seq.of([])
            raise PathEnd()
        return Seq(n, lambda j: subst_(val, k, j))

    def pure_but_frames(self, outs, base):
        """No outcome changed pre-existing state, frames of comprehensions aside."""
        E = self.E
        for o in outs:
            s2, h2, g2 = o.snap[0], o.snap[1], o.snap[3]
            for key, v in base.items():
                if isinstance(key, tuple) and key[0] in ('fr', 'exc'):
                    nv = s2.get(key)
                    if nv is not v and key not in self.scratch_frames(base, s2, key):
                        return False
                    continue
                if s2.get(key) is not v:
                    return False
            for key, v in h2.items():
                if E.heap.get(key) is not v and getattr(v, 'initial', None) is None:
                    return False
            for key, v in g2.items():
                if E.ghost.get(key) is not v:
                    return False
            if len(o.snap[4]) != len(E.forward):
                return False
        return True

    def scratch_frames(self, base, s2, key):
        """A frame change is harmless if it only bound comprehension targets: those
        frames hold no parameter and start empty."""
        a, b = base[key], s2.get(key, {})
        # frames created by comp_frame are only written by the comprehension itself
        if key in self._comp_frames:
            return (key,)
        return () if a != b else (key,)

    _comp_frames = set()   # (ids are unique within a run)

    def comp_set(self, gens, elt, fr):
        return None

    def comp_dict(self, e, fr):
        return None


class StarSeq(object):
    """*args with symbolic length."""
    def __init__(self, seq): self.seq = seq


class UnordV(object):
    """Unordered iterable: elements x of type ty with mem(x), each once (or, when
    multi is set, possibly repeated)."""
    def __init__(self, mem, ty, multi=False): self.mem, self.ty, self.multi = mem, ty, multi


class ExcV(object):
    def __init__(self, cls, args): self.cls, self.args = cls, args


class _ClassScope(object):
    def __init__(self, cls): self.cls = cls
    fid = ('clsscope',)


NOPE = object()
IMPURE = object()


def subst_(v, k, j):
    if isinstance(v, RecV):
        return RecV(v.cls, {a: subst_(b, k, j) for a, b in v.fields.items()})
    if isinstance(v, tuple):
        return tuple(subst_(x, k, j) for x in v)
    if isinstance(v, Opt):
        return Opt(subst_(v.none, k, j), subst_(v.val, k, j))
    return subst(v, [(k, intx(j))])
