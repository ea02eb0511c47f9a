"""Abstract values and the abstract heap."""
from .terms import *
from .terms import UNDEF


class V:
    """Base of immutable structural values compared by key."""
    __slots__ = ()


class Ten:
    """A view of an explicit tensor storage: shape of ints, map of flat storage positions.
    dt: symbolic element type; det: the view is cut from the autograd graph."""
    __slots__ = ("addr", "shape", "map", "dt", "det")

    def __init__(self, addr, shape, map_, dt, det=False):
        self.addr, self.shape, self.map, self.dt, self.det = addr, tuple(shape), tuple(map_), dt, det

    def _k(self):
        return (self.addr, self.shape, self.map, self.dt, self.det)

    def __hash__(self):
        return hash(self._k())

    def __eq__(self, o):
        return isinstance(o, Ten) and self._k() == o._k()

    def __repr__(self):
        return 'Ten%r@%r' % (self.shape, self.addr)


class TData(V):
    """Contents of an explicit tensor storage."""
    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = tuple(elems)

    def __hash__(self):
        return hash(self.elems)

    def __eq__(self, o):
        return isinstance(o, TData) and self.elems == o.elems


class LV(V):
    """Concrete list contents."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __hash__(self):
        return hash(self.items)

    def __eq__(self, o):
        return isinstance(o, LV) and self.items == o.items

    def __repr__(self):
        return 'LV%r' % (self.items,)


class SymL(V):
    """[body[ix := 0..n-1]] ; ix is a free index atom private to this list."""
    __slots__ = ("n", "ix", "body")

    def __init__(self, n, ix, body):
        self.n, self.ix, self.body = n, ix, body

    def _k(self):
        return (self.n, self.ix, self.body)

    def __hash__(self):
        return hash(self._k())

    def __eq__(self, o):
        return isinstance(o, SymL) and self._k() == o._k()

    def __repr__(self):
        return 'SymL(%r, %r: %r)' % (self.n, self.ix, self.body)


class TupV(V):
    """An immutable tuple."""
    __slots__ = ("items", "names")

    def __init__(self, items, names=()):
        self.items = tuple(items)
        self.names = names      # of the fields, of a named tuple

    def __hash__(self):
        return hash(('tup', self.items))

    def __eq__(self, o):
        return isinstance(o, TupV) and self.items == o.items

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class DV(V):
    """Contents of a dictionary: ordered (key, value) pairs."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __hash__(self):
        return hash(('dv', self.items))

    def __eq__(self, o):
        return isinstance(o, DV) and self.items == o.items

    def get(self, k, default=None):
        for a, b in self.items:
            if a == k and type(a) is type(k):
                return b
        return default

    def set(self, k, v):
        out, hit = [], False
        for a, b in self.items:
            if a == k and type(a) is type(k):
                out.append((a, v))
                hit = True
            else:
                out.append((a, b))
        if not hit:
            out.append((k, v))
        return DV(out)


class PhiL(V):
    """Unknown list contents at a loop head."""
    __slots__ = ("uid",)

    def __init__(self, uid):
        self.uid = uid

    def __hash__(self):
        return hash(('phil', self.uid))

    def __eq__(self, o):
        return isinstance(o, PhiL) and self.uid == o.uid

    def __repr__(self):
        return 'PhiL(%r)' % (self.uid,)


class Ref:
    """A reference to a heap container: kind in list, dict, set."""
    __slots__ = ("kind", "addr")

    def __init__(self, kind, addr):
        self.kind, self.addr = kind, addr

    def __hash__(self):
        return hash((self.kind, self.addr))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.kind == o.kind and self.addr == o.addr

    def __repr__(self):
        return '%s@%r' % (self.kind, self.addr)


class Obj:
    """An instance.  addr is an int or ('el', listname, R index)."""
    __slots__ = ("addr", "cls")

    def __init__(self, addr, cls):
        self.addr, self.cls = addr, cls

    def __hash__(self):
        return hash(('obj', self.addr))

    def __eq__(self, o):
        return isinstance(o, Obj) and self.addr == o.addr

    def __repr__(self):
        return '<%s %r>' % (self.cls.name if self.cls else '?', self.addr)


class ClassV:
    def __init__(self, name, bases, module, node, addr):
        self.name, self.bases, self.module, self.node, self.addr = name, bases, module, node, addr

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext):
                    out.append(b.path)
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class Func:
    ctx = False     # a generator used as a context manager

    def __init__(self, node, module, frame, cls, name, defaults, kwdefaults, kind='func'):
        self.node, self.module, self.frame, self.cls, self.name = node, module, frame, cls, name
        self.defaults, self.kwdefaults, self.kind = defaults, kwdefaults, kind

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def loc(self):
        return '%s:%d' % (self.module.path, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return '<fn %s>' % self.qual


class Bound(V):
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __hash__(self):
        return hash((id(self.fn), self.self))

    def __eq__(self, o):
        return isinstance(o, Bound) and self.fn is o.fn and self.self == o.self

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class Builtin(V):
    """A method of a built-in kind of value: (name, receiver)."""
    __slots__ = ("name", "recv")

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __hash__(self):
        return hash((self.name, self.recv))

    def __eq__(self, o):
        return isinstance(o, Builtin) and self.name == o.name and self.recv == o.recv

    def __repr__(self):
        return '<builtin %s>' % self.name


class Ext(V):
    """Something of an external library, by dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __hash__(self):
        return hash(self.path)

    def __eq__(self, o):
        return isinstance(o, Ext) and self.path == o.path

    def __repr__(self):
        return '<ext %s>' % self.path


class ModuleV(V):
    __slots__ = ("name", "path", "frame", "tree")

    def __init__(self, name, path, frame, tree):
        self.name, self.path, self.frame, self.tree = name, path, frame, tree

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return '<module %s>' % self.name


class SuperV(V):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_

    def __hash__(self):
        return hash((id(self.cls), self.self))

    def __eq__(self, o):
        return isinstance(o, SuperV) and self.cls is o.cls and self.self == o.self


class SeqV:
    """A lazily indexed sequence (range, enumerate, zip, map ...): n elements (R), get(k, st)."""

    def __init__(self, n, get, what='seq'):
        self.n, self.get, self.what = n, get, what

    def __repr__(self):
        return '<%s of %r>' % (self.what, self.n)


class SliceV(V):
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __hash__(self):
        return hash((self.a, self.b, self.s))

    def __eq__(self, o):
        return isinstance(o, SliceV) and (self.a, self.b, self.s) == (o.a, o.b, o.s)


ELLIPSIS = Ext('Ellipsis')


class Opaque(V):
    """A value of which only identity matters (results of drawing calls, surfaces ...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(('opq', self.name))

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.name == o.name

    def __repr__(self):
        return '<opaque %s>' % (self.name,)


class Exit:
    __slots__ = ("kind", "guard", "value", "st", "line")

    def __init__(self, kind, guard, value, st, line=0):
        self.kind, self.guard, self.value, self.st, self.line = kind, guard, value, st, line


class State:
    """heap: (address, field) -> value; guard: path condition; dead: control left this state."""
    __slots__ = ("heap", "guard", "dead", "nograd")

    def __init__(self, heap=None, guard=True):
        self.heap = heap if heap is not None else {}
        self.guard = guard
        self.dead = False
        self.nograd = 0

    def clone(self, guard=None):
        s = State(dict(self.heap), self.guard if guard is None else guard)
        s.dead, s.nograd = self.dead, self.nograd
        return s

    def become(self, o):
        self.heap, self.guard, self.dead, self.nograd = o.heap, o.guard, o.dead, o.nograd


class AbsRaise(Exception):
    """Every path through an expression raises."""


class PathDone(Exception):
    """The path goes back to a loop head whose state covers it."""
