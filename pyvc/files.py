"""Library contracts of json and of text files: json text determines the value it was made from
(tuples become lists), and a file holds the text last written to it.  install(I) adds them."""
import z3
from .values import *
from .interp import Builtin, PyExc, RefClass, PyCls


def snap(I, v):
    """The value of json text, detached from the heap."""
    v = I.resolve(v)
    if v is None or isinstance(v, (bool, int, float, RefV)) or is_str(v) or is_num(v) or is_boolish(v):
        return v
    if isinstance(v, Opt):
        return Opt(v.none, snap(I, v.val))
    if isinstance(v, tuple):
        return ContV('list', Frozen(Seq.of([snap(I, x) for x in v])))
    if isinstance(v, ContV) and v.kind in ('list', 'range') and not (v.kind == 'range'):
        s = I.read(v.lv)
        if s.items is not None:
            return ContV('list', Frozen(Seq.of([snap(I, x) for x in s.items])))
        return ContV('list', Frozen(Seq(s.n, lambda k: snap(I, s.get(k)))))
    if isinstance(v, ContV) and v.kind == 'dict':
        c = I.read(v.lv)
        if c.items is None:
            raise Unsupported('json of a symbolic dictionary')
        if not all(isinstance(k, str) for k, _ in c.items):
            raise Unsupported('json keys')
        return ContV('dict', Frozen(DictC(items=[(k, snap(I, x)) for k, x in c.items])))
    if isinstance(v, ContV) and v.kind == 'range':
        raise PyExc(PyCls(TypeError), why='not serialisable')
    from .interp import RecV
    if isinstance(v, (ContV, NDV, ObjV, RecV)):
        raise PyExc(PyCls(TypeError), why='not serialisable: %r' % (v,))
    raise Unsupported('json of %r' % (v,))


def thaw(I, v):
    """A new value for the snapshot."""
    if isinstance(v, ContV):
        c = v.lv.content
        if v.kind == 'dict':
            return I.new_cont('dict', DictC(items=[(k, thaw(I, x)) for k, x in c.items]))
        return I.new_list(c if c.items is None else Seq.of([thaw(I, x) for x in c.items]))
    return v


def dumps(I, args, kw):
    t = I.E.fresh(TStr, 'json')
    I.E.ghost['_json'] = I.E.ghost.get('_json', ()) + ((t, snap(I, args[0])),)
    return t


def loads(I, args, kw):
    t = args[0]
    for u, v in I.E.ghost.get('_json', ()):
        if is_z(t) and u.eq(t):
            return thaw(I, v)
    raise Unsupported('json text of unknown origin')


def lookup(I, path):
    for p, t in reversed(I.E.ghost.get('_files', ())):
        c = I.eq(p, path)
        if c is True or is_z(c) and I.E.valid(boolx(c)):
            return p, t
        if not (c is False or I.E.valid(NOT(boolx(c)))):
            raise Unsupported('file of the same name?')
    raise Unsupported('reading an unknown file')


def opened(I, args, kw):
    path = args[0]
    mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
    n = len(I.E.ghost.get('_handles', ()))
    I.E.ghost['_handles'] = I.E.ghost.get('_handles', ()) + ((path, mode),)
    if 'w' in mode:
        put(I, path, '')
    elif 'r' in mode:
        lookup(I, path)
    else:
        raise Unsupported('file mode %r' % (mode,))
    return RefV('File', z3.IntVal(n))


def handle(I, f):
    return I.E.ghost['_handles'][f.id.as_long()]


def put(I, path, text):
    I.E.ghost['_files'] = I.E.ghost.get('_files', ()) + ((path, text),)


def write(I, f, args, kw):
    path, mode = handle(I, f)
    if 'w' not in mode:
        raise Unsupported('write to a file opened for reading')
    old = lookup(I, path)[1]
    put(I, path, args[0] if old == '' else I.add(old, args[0]) if hasattr(I, 'add') else _cat(I, old, args[0]))
    return None


def _cat(I, a, b):
    from . import builtins_ as B
    import ast
    return B.binop(I, ast.Add(), a, b)


def read(I, f, args, kw):
    return lookup(I, handle(I, f)[0])[1]


def install(I):
    X = I.externals

    def reg(n, f):
        X[n] = Builtin(n, f)
    reg('open', opened)
    reg('json.dumps', dumps)
    reg('json.loads', loads)
    reg('json.dump', lambda I, a, kw: write(I, a[1], [dumps(I, [a[0]], kw)], {}))
    reg('json.load', lambda I, a, kw: loads(I, [read(I, a[0], [], {})], {}))
    I.refclasses['File'] = RefClass('File', {}, methods={
        '__enter__': lambda I, f, a, kw: f, '__exit__': lambda I, f, a, kw: None, 'close': lambda I, f, a, kw: None,
        'write': write, 'read': read})
