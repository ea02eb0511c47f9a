"""Models of the Python builtins and of the libraries the package uses (torch, math, ode,
pygame, os, time, random): transfer functions on abstract values."""
from itertools import product

from .terms import *
from .terms import UNDEF, Imprecise, b_atom
from .values import *

BUILTINS = {}
CONSTANTS = {}
EXT = {}            # dotted path -> fn(ip, st, args, kw)
TMETH = {}          # tensor method -> fn(ip, st, self, args, kw)
LMETH = {}          # list / dict / set / str methods
OBJM = {}           # (external class, method) -> fn(ip, st, obj, args, kw)


def install(ip):
    pass


def I():
    from . import interp
    return interp


def all_leaves(v):
    return I().all_leaves(v)


def num(v):
    return True if False else (ONE if v is True else ZERO if v is False else v)


# ================================================================= tensors
class A:
    """Shape and elements read from a tensor or a number."""
    __slots__ = ("shape", "e", "dt", "ten")

    def __init__(self, shape, e, dt, ten=True):
        self.shape, self.e, self.dt, self.ten = tuple(shape), list(e), dt, ten


def size_of(shape):
    n = 1
    for x in shape:
        n *= x
    return n


def strides(shape):
    out = []
    n = 1
    for x in reversed(shape):
        out.append(n)
        n *= x
    return tuple(reversed(out))


def read(t, st):
    d = st.heap[(t.addr, 'c')]
    if isinstance(d, DD):
        d = I().mergeval  # pragma: no cover
        raise Imprecise('tensor storage of varying size')
    e = [d.elems[i] for i in t.map]
    if t.det:
        e = [detx(x) for x in e]
    return e


def detx(x):
    return x if isinstance(x, bool) else det(x)


def elems(ip, v, st):
    if isinstance(v, Ten):
        return read(v, st)
    if isinstance(v, DD):
        h, l = elems(ip, v.hi, st) if v.hi is not None else None, elems(ip, v.lo, st) if v.lo is not None else None
        if h is None:
            return l
        if l is None:
            return h
        if len(h) != len(l):
            ip.imprecise('tensors of different sizes meet')
        g = b_atom(v.c)
        return [x if x is y or x == y else ite(g, num_(x), num_(y)) if not (isb(x) and isb(y)) else ite(g, x, y)
                for x, y in zip(h, l)]
    if isinstance(v, (R, bool)):
        return [v]
    if isinstance(v, Opaque):
        return [R.atom(Atom('opqv', v.name))]
    ip.imprecise('tensor expected, got %r' % (v,))


def isb(x):
    return all(isinstance(l, bool) for l in all_leaves(x))


def num_(x):
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, DD):
        return lift(lambda l: ONE if l is True else ZERO if l is False else l, x)
    return x


def rd(ip, v, st):
    """Read a tensor / number into an A; None when the leaves have different shapes."""
    if isinstance(v, Ten):
        return A(v.shape, read(v, st), v.dt)
    if isinstance(v, DD):
        ls = [l for l in all_leaves(v)]
        ts = [l for l in ls if isinstance(l, Ten)]
        if ts:
            if len(ts) != len(ls):
                if all(isinstance(l, (Ten, R, bool)) for l in ls) and all(t.shape == () for t in ts):
                    return A((), elems(ip, v, st), ts[0].dt)
                return None
            if len({t.shape for t in ts}) != 1:
                return None
            return A(ts[0].shape, elems(ip, v, st), ts[0].dt if len({t.dt for t in ts}) == 1 else mixdt([t.dt for t in ts]))
        return A((), [v], None, False)
    if isinstance(v, (R, bool)):
        return A((), [v], None, False)
    if isinstance(v, (Ref, TupV)):
        return from_nested(ip, v, st)
    if isinstance(v, Opaque):
        return A((), [R.atom(Atom('opqv', v.name))], None, False)
    if v is None:
        ip.fail('TypeError', 'None where a tensor is expected', st)
    ip.imprecise('tensor expected, got %r' % (v,))


def mixdt(dts):
    s = sorted({str(d) for d in dts})
    return s[0] if len(s) == 1 else 'X(%s)' % ','.join(s)


def promote(xs):
    """Result element type of an operation on the given operands (torch promotion)."""
    ts = [x for x in xs if x.ten and x.dt is not None]
    if not ts:
        return None
    dims = [x for x in ts if x.shape != ()] or ts
    fl = [x for x in dims if x.dt not in ('I', 'bool')]
    if not fl:
        fl = [x for x in ts if x.dt not in ('I', 'bool')] or dims
        if all(x.dt == 'bool' for x in fl):
            return 'bool'
    dts = {x.dt for x in fl}
    return dts.pop() if len(dts) == 1 else mixdt(dts)


def mk(ip, st, shape, e, dt):
    if st.nograd:
        e = [detx(x) for x in e]
    if ip.hide_values:
        if ip.decide_values and ip.oracle is not None:
            e = [ip.oracle.decide(x) for x in e]
        e = [hide(x) if isinstance(x, R) else x for x in e]
    a = ip.new()
    st.heap[(a, 'c')] = TData(e)
    return Ten(a, shape, range(len(e)), dt)


def from_nested(ip, v, st, detach=True):
    """Array from nested lists / tensors / numbers (as torch.tensor does: a detached copy)."""
    if isinstance(v, Ten):
        e = read(v, st)
        return A(v.shape, [detx(x) for x in e] if detach else e, v.dt)
    if isinstance(v, (R, bool)):
        return A((), [v], None, False)
    if isinstance(v, DD):
        a = rd(ip, v, st)
        if a is None:
            ip.imprecise('array from values of different shapes')
        if a.ten and detach:
            a.e = [detx(x) for x in a.e]
        return a
    if isinstance(v, (Ref, TupV, SeqV)):
        parts = [from_nested(ip, x, st, detach) for x in ip.seq_items(v, st)]
        if not parts:
            return A((0,), [], None, False)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            ip.imprecise('ragged array')
        dts = [p for p in parts if p.dt is not None]
        return A((len(parts),) + sh, [x for p in parts for x in p.e], promote(dts) if dts else None, False)
    if isinstance(v, Opaque):
        return A((), [R.atom(Atom('opqv', v.name))], None, False)
    ip.imprecise('array from %r' % (v,))


def detv(ip, v, st):
    """The same tensor value, cut from the graph (shares storage)."""
    def f(t):
        if isinstance(t, Ten):
            return Ten(t.addr, t.shape, t.map, t.dt, True)
        if isinstance(t, R):
            return det(t)
        return t
    return lift(f, v)


def lift_t(ip, st, fn, *vs):
    """Apply fn(*arrays) -> value; fork when operands vary in shape."""
    arrs = []
    for k, v in enumerate(vs):
        a = rd(ip, v, st)
        if a is None:
            return ip.fork(v, st, lambda l, s: lift_t(ip, s, fn, *(vs[:k] + (l,) + vs[k + 1:])))
        arrs.append(a)
    return fn(st, *arrs)


def bshape(ip, *shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    shape_error(ip, 'shapes %r cannot be combined' % (shapes,))
                d = s[j]
        out.append(d)
    return tuple(out)


def shape_error(ip, msg):
    ip.fail('RuntimeError', msg)


def bget(a, shape):
    """Elements of a broadcast to shape."""
    if a.shape == shape:
        return a.e
    n = len(shape)
    pad = (1,) * (n - len(a.shape)) + a.shape
    s = strides(pad)
    out = []
    for idx in product(*[range(x) for x in shape]):
        out.append(a.e[sum((0 if pad[k] == 1 else idx[k]) * s[k] for k in range(n))])
    return out


def ewise(ip, st, f, *vs, dt=None):
    def go(st, *arrs):
        sh = bshape(ip, *[a.shape for a in arrs])
        es = [bget(a, sh) for a in arrs]
        d = dt if dt is not None else promote(arrs)
        return mk(ip, st, sh, [f(*xs) for xs in zip(*es)], d)
    return lift_t(ip, st, go, *vs)


def divdt(arrs):
    d = promote(arrs)
    return 'F' if d in ('I', 'bool') else d


OPS = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div}


def t_binop(ip, op, a, b, st):
    if any(isinstance(l, Obj) for l in all_leaves(b)):
        ip.imprecise('tensor and object')
    if any(isinstance(l, Opaque) for l in all_leaves(a)) or any(isinstance(l, Opaque) for l in all_leaves(b)):
        keyname = I().keyname
        return lift(lambda x, y: Opaque((op, keyname(x, st), keyname(y, st))), a, b)
    # numpy arrays combine with lists
    if op == 'MatMult':
        return f_matmul(ip, st, [a, b], {})
    if op in OPS:
        f = OPS[op]
        return ewise(ip, st, lambda x, y: f(num_(x), num_(y)), a, b)
    if op == 'Pow':
        return ewise(ip, st, lambda x, y: lift(lambda p, q: I().arith(ip, 'Pow', p, q), num_(x), num_(y)), a, b)
    if op in ('Mod', 'FloorDiv'):
        return ewise(ip, st, lambda x, y: lift(lambda p, q: I().arith(ip, op, p, q), num_(x), num_(y)), a, b)
    if op == 'BitAnd':
        return ewise(ip, st, lambda x, y: b_and(x, y), a, b)
    if op == 'BitOr':
        return ewise(ip, st, lambda x, y: b_or(x, y), a, b)
    if op == 'BitXor':
        return ewise(ip, st, lambda x, y: lift(lambda p, q: p != q, x, y), a, b)
    ip.imprecise('tensor operator %s' % op)


def t_unary(ip, op, v, st):
    if op == 'USub':
        return ewise(ip, st, lambda x: neg(num_(x)), v)
    if op == 'Invert':
        return ewise(ip, st, lambda x: b_not(x), v)
    if op == 'UAdd':
        return v
    ip.imprecise('unary operator')


def t_compare(ip, op, a, b, st):
    cs = I().cmp_scalar
    if any(l is None or isinstance(l, (str, Ref)) for l in all_leaves(a) + all_leaves(b)):
        return lift(lambda x, y: (x is y) if op == 'Eq' else (x is not y), a, b)
    return ewise(ip, st, lambda x, y: lift(lambda p, q: cs(op, p, q), num_(x), num_(y)), a, b, dt='bool')


def t_write(ip, t, v, st):
    """Overwrite the viewed elements of t with v (broadcast)."""
    def go(s, a):
        if len(a.shape) > len(t.shape) and a.shape[:len(a.shape) - len(t.shape)] != (1,) * (len(a.shape) - len(t.shape)):
            shape_error(ip, 'cannot write shape %r into %r' % (a.shape, t.shape))
        if len(a.shape) > len(t.shape):
            a = A(a.shape[len(a.shape) - len(t.shape):], a.e, a.dt, a.ten)
        if bshape(ip, a.shape, t.shape) != t.shape:
            shape_error(ip, 'cannot write shape %r into %r' % (a.shape, t.shape))
        e = bget(a, t.shape)
        if ip.hide_values:
            if ip.decide_values and ip.oracle is not None:
                e = [ip.oracle.decide(x) for x in e]
            e = [hide(x) if isinstance(x, R) else x for x in e]
        key = (t.addr, 'c')
        d = list(s.heap[key].elems)
        for i, x in zip(t.map, e):
            if s.nograd or t.det:
                x = detx(x)
            d[i] = num_(x) if t.dt != 'bool' else x
        s.heap[key] = TData(d)
        if a.ten:
            log_cast(ip, a.dt, t.dt, e)
        ip.wsite[key] = ip.here()
        return None
    return lift_t(ip, st, go, v)


def t_select(ip, t, dim, k):
    dim %= len(t.shape)
    s = strides(t.shape)
    sh = t.shape[:dim] + t.shape[dim + 1:]
    m = []
    for idx in product(*[range(x) for x in sh]):
        full = idx[:dim] + (k,) + idx[dim:]
        m.append(t.map[sum(i * j for i, j in zip(full, s))])
    return Ten(t.addr, sh, m, t.dt, t.det)


def t_slice(t, dim, ks):
    s = strides(t.shape)
    sh = t.shape[:dim] + (len(ks),) + t.shape[dim + 1:]
    m = []
    for idx in product(*[range(x) for x in sh]):
        full = idx[:dim] + (ks[idx[dim]],) + idx[dim + 1:]
        m.append(t.map[sum(i * j for i, j in zip(full, s))])
    return Ten(t.addr, sh, m, t.dt, t.det)


def reshape(t, sh):
    return Ten(t.addr, sh, t.map, t.dt, t.det)


def permute(t, perm):
    s = strides(t.shape)
    sh = tuple(t.shape[p] for p in perm)
    m = []
    for idx in product(*[range(x) for x in sh]):
        full = [0] * len(perm)
        for i, p in zip(idx, perm):
            full[p] = i
        m.append(t.map[sum(i * j for i, j in zip(full, s))])
    return Ten(t.addr, sh, m, t.dt, t.det)


def t_view(ip, t, i, st):
    """Basic indexing -> view, or ('mask', tensor) for boolean masks."""
    idx = list(i.items) if isinstance(i, TupV) else [i]
    if any(x is ELLIPSIS or (isinstance(x, Ext) and x.path == 'Ellipsis') for x in idx):
        k = [j for j, x in enumerate(idx) if isinstance(x, Ext)][0]
        n = len(t.shape) - sum(1 for x in idx if x is not None and not isinstance(x, Ext))
        idx[k:k + 1] = [SliceV(None, None, None)] * n
    dim = 0
    for x in idx:
        if isinstance(x, bool):
            x = num_(x)
        if x is None:
            t = reshape(t, t.shape[:dim] + (1,) + t.shape[dim:])
            dim += 1
            continue
        if isinstance(x, Ten) and x.dt == 'bool':
            return ('mask', x)
        if dim >= len(t.shape):
            shape_error(ip, 'too many indices for shape %r' % (t.shape,))
        n = t.shape[dim]
        if isinstance(x, Ten) and x.dt != 'bool' and x.shape == ():
            x = read(x, st)[0]
        if isinstance(x, R):
            if not x.is_const():
                ip.imprecise('tensor index of unknown value %r' % (x,))
            k = int(x.const())
            if not -n <= k < n:
                shape_error(ip, 'index %d out of range for size %d' % (k, n))
            t = t_select(ip, t, dim, k % n)
        elif isinstance(x, SliceV):
            f = lambda y: None if y is None else ip.as_int(scalar(ip, y, st))
            ks = list(range(n))[slice(f(x.a), f(x.b), f(x.s))]
            t = t_slice(t, dim, ks)
            dim += 1
        elif isinstance(x, (Ref, TupV, SeqV)):
            ks = [ip.as_int(scalar(ip, y, st)) for y in ip.seq_items(x, st)]
            t = t_slice(t, dim, [k % n for k in ks])
            dim += 1
        elif isinstance(x, Ten) and x.dt == 'bool':
            return ('mask', x)
        elif isinstance(x, Ten) and len(x.shape) == 1:
            ks = [ip.as_int(y) for y in read(x, st)]
            t = t_slice(t, dim, [k % n for k in ks])
            dim += 1
        else:
            ip.imprecise('tensor index %r' % (x,))
    return t


def advanced(i):
    its = i.items if isinstance(i, TupV) else [i]
    return any(isinstance(x, (Ref, SeqV)) or (isinstance(x, Ten) and x.shape != ()) for x in its)


def scalar(ip, v, st):
    if isinstance(v, DD) or isinstance(v, Ten):
        if any(isinstance(l, Ten) for l in all_leaves(v)):
            return elems(ip, v, st)[0]
    return v


def t_index(ip, t, i, st):
    v = t_view(ip, t, i, st)
    if isinstance(v, tuple):
        m = elems(ip, v[1], st)
        if all(isinstance(x, bool) for x in m):
            e = read(t, st)
            sub_n = size_of(t.shape[len(v[1].shape):])
            out = []
            for k, x in enumerate(m):
                if x:
                    out += e[k * sub_n:(k + 1) * sub_n]
            return mk(ip, st, (sum(m),) + t.shape[len(v[1].shape):], out, t.dt)
        return Masked(t, v[1])
    if advanced(i):
        return mk(ip, st, v.shape, read(v, st), t.dt)
    return v


class Masked(V):
    """t[mask] with an unknown mask: only usable to write back under the same mask."""
    __slots__ = ("t", "mask")

    def __init__(self, t, mask):
        self.t, self.mask = t, mask

    def __hash__(self):
        return hash((self.t, self.mask))

    def __eq__(self, o):
        return isinstance(o, Masked) and self.t == o.t and self.mask == o.mask


def masked_binop(ip, op, a, b, st):
    m = a.mask if isinstance(a, Masked) else b.mask
    for x in (a, b):
        if isinstance(x, Masked):
            if elems(ip, x.mask, st) != elems(ip, m, st):
                ip.imprecise('values selected by different masks')
        elif any(isinstance(l, Ten) and size_of(l.shape) != 1 for l in all_leaves(x)):
            ip.imprecise('values selected by an unknown mask combined with others')
    r = t_binop(ip, op, a.t if isinstance(a, Masked) else a, b.t if isinstance(b, Masked) else b, st)
    if not isinstance(r, Ten):
        ip.imprecise('values selected by an unknown mask')
    return Masked(r, m)


def t_setitem(ip, t, i, v, st):
    w = t_view(ip, t, i, st)
    if isinstance(w, tuple):
        m = elems(ip, w[1], st)
        sub_n = size_of(t.shape[len(w[1].shape):])
        m = [x for x in m for _ in range(sub_n)]
        old = read(t, st)
        if isinstance(v, Masked):
            if elems(ip, v.mask, st) != elems(ip, w[1], st):
                ip.imprecise('masked write with another mask')
            new = read(v.t, st)
        else:
            a = rd(ip, v, st)
            if all(isinstance(x, bool) for x in m) and len(a.e) == sum(m):
                k, new = 0, []
                for x in m:
                    new.append(a.e[k] if x else ZERO)
                    k += x
            elif len(a.e) != 1:
                ip.imprecise('masked write of several values')
            else:
                new = a.e * len(old)
        t_write(ip, Ten(t.addr, (len(old),), t.map, t.dt, t.det),
                mk(ip, st, (len(old),), [ite(g, num_(x), num_(y)) for g, x, y in zip(m, new, old)], t.dt), st)
        return
    t_write(ip, w, v, st)


# ------------------------------------------------------------------ attributes of tensors
def ten_attr(ip, t, name, st):
    if name == 'shape':
        return TupV([R.c(x) for x in t.shape])
    if name in ('T', 'mT', 'H'):
        return permute(t, tuple(reversed(range(len(t.shape))))) if name == 'T' else \
            permute(t, tuple(range(len(t.shape) - 2)) + (len(t.shape) - 1, len(t.shape) - 2))
    if name == 'data':
        return Ten(t.addr, t.shape, t.map, t.dt, True)
    if name == 'dtype':
        return Opaque(('dtype', t.dt))
    if name == 'device':
        return Opaque(('device',))
    if name == 'ndim':
        return R.c(len(t.shape))
    if name in ('requires_grad', 'is_cuda', 'is_leaf', 'is_sparse'):
        return False if name != 'requires_grad' else b_atom(Atom('opq', ('requires_grad',)))
    if name in ('grad', 'grad_fn', 'layout'):
        return Opaque((name,))
    if name == '__class__':
        return Ext('torch.Tensor')
    if name in TMETH:
        return Builtin(name, t)
    return UNDEF


def meth(*names):
    def deco(f):
        for n in names:
            TMETH[n] = f
        return f
    return deco


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def arg(args, kw, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kw.get(name, default)


def call_dt(ip, kw, default, st=None):
    d = kw.get('dtype')
    return dt_of(d) if d is not None else default


DTN = {'torch.double': 'D', 'torch.float64': 'D', 'torch.float': 'F', 'torch.float32': 'F', 'torch.uint8': 'bool',
       'torch.int': 'I', 'torch.int32': 'I', 'torch.int64': 'I', 'torch.long': 'I', 'torch.bool': 'bool', 'torch.half': 'H',
       'torch.float16': 'H'}


def dt_of(d):
    if isinstance(d, Ext):
        return DTN.get(d.path, d.path)
    if isinstance(d, Opaque) and d.name[0] == 'dtype':
        return d.name[1]
    if isinstance(d, Builtin):
        return {'float': 'D', 'int': 'I', 'bool': 'bool'}.get(d.name, d.name)
    return str(d)


def ints(ip, st, args):
    """Sizes given as separate ints or one sequence."""
    if len(args) == 1 and isinstance(args[0], (TupV, Ref)):
        args = ip.seq_items(args[0], st)
    return [ip.as_int(scalar(ip, a, st)) for a in args]


def unary(f):
    def m(ip, st, t, args, kw):
        return ewise(ip, st, lambda x: f(num_(x)), t)
    return m


def wrap(fn):
    """torch.f(x, ...) from the method f(x, ...)"""
    return lambda ip, st, args, kw: fn(ip, st, args[0], list(args[1:]), kw)


def both(*names):
    def deco(f):
        for n in names:
            TMETH[n] = f
            EXT['torch.' + n] = wrap(f)
        return f
    return deco


def t_sign(x):
    return ite(c_lt(ZERO, x), ONE, ite(c_lt(x, ZERO), NEG1, ZERO))


for _n, _f in {'sin': mk_sin, 'cos': mk_cos, 'sqrt': sqrt, 'abs': mk_abs, 'neg': neg, 'sign': t_sign,
               'square': lambda x: mul(x, x), 'reciprocal': lambda x: div(ONE, x), 'absolute': mk_abs,
               'rsqrt': lambda x: div(ONE, sqrt(x)), 'negative': neg,
               'deg2rad': lambda x: div(mul(x, R.atom(PI)), R.c(180))}.items():
    TMETH[_n] = unary(_f)
    EXT['torch.' + _n] = wrap(TMETH[_n])
for _n in ('exp', 'log', 'tan', 'tanh', 'floor', 'ceil', 'round', 'acos', 'asin', 'atan', 'sigmoid', 'relu'):
    TMETH[_n] = unary(lambda x, n=_n: lift(lambda y: R.atom(Atom(n, y)), x))
    EXT['torch.' + _n] = wrap(TMETH[_n])


@both('size')
def m_size(ip, st, t, args, kw):
    def f(t):
        sh = t.shape
        d = arg(args, kw, 0, 'dim')
        if d is None:
            return TupV([R.c(x) for x in sh])
        k = ip.as_int(d)
        if not -len(sh) <= k < len(sh):
            shape_error(ip, 'size(%d) of a tensor with shape %r' % (k, sh))
        return R.c(sh[k])
    return lift(f, t)


@both('dim', 'ndimension')
def m_dim(ip, st, t, args, kw):
    return lift(lambda t: R.c(len(t.shape)), t)


@both('numel', 'nelement')
def m_numel(ip, st, t, args, kw):
    return lift(lambda t: R.c(size_of(t.shape)), t)


@meth('item')
def m_item(ip, st, t, args, kw):
    e = elems(ip, t, st)
    if len(e) != 1:
        shape_error(ip, 'item() of a tensor with shape %r' % (t.shape,))
    return detx(e[0])


@meth('tolist')
def m_tolist(ip, st, t, args, kw):
    def go(shape, e):
        if not shape:
            return detx(e[0])
        n = size_of(shape[1:])
        return ip.new_list(st, [go(shape[1:], e[k * n:(k + 1) * n]) for k in range(shape[0])])
    return go(t.shape, read(t, st))


@both('detach')
def m_detach(ip, st, t, args, kw):
    return detv(ip, t, st)


@meth('numpy', 'cpu', 'cuda', 'contiguous', 'requires_grad_', 'retain_grad', 'detach_', 'share_memory_', 'pin_memory')
def m_same(ip, st, t, args, kw):
    return t


@meth('numpy')
def m_numpy(ip, st, t, args, kw):
    return Ten(t.addr, t.shape, t.map, t.dt, True)


@meth('backward', 'register_hook')
def m_none(ip, st, t, args, kw):
    return None


@both('clone')
def m_clone(ip, st, t, args, kw):
    return ewise(ip, st, lambda x: x, t)


TMETH['copy'] = m_clone


@meth('type_as')
def m_type_as(ip, st, t, args, kw):
    dt = lift_dt(args[0])
    return cast(ip, st, t, dt)


def lift_dt(v):
    ls = [l for l in all_leaves(v) if isinstance(l, Ten)]
    return mixdt([l.dt for l in ls]) if ls else None


def log_cast(ip, a, b, e):
    """Values that are not constants pass from one floating point type to another."""
    if a is not None and b is not None and a != b and a not in ('I', 'bool') and any(isinstance(x, DD) or isinstance(x, R) and not x.is_const() for x in e):
        ip.cast_log.append((ip.here(), a, b))


def cast(ip, st, t, dt):
    def f(t):
        if t.dt == dt or dt is None:
            return t
        log_cast(ip, t.dt, dt, read(t, st))
        return mk(ip, st, t.shape, [tobool(x) if dt == 'bool' else num_(x) for x in read(t, st)], dt)
    return lift(f, t)


def tobool(x):
    if isinstance(x, R):
        return bool(x.const()) if x.is_const() else b_not(c_eq(x, ZERO))
    return x


@meth('to', 'type', 'astype')
def m_to(ip, st, t, args, kw):
    d = arg(args, kw, 0, 'dtype') or kw.get('device')
    if 'dtype' in kw:
        d = kw['dtype']
    if len(args) > 1 and (isinstance(args[1], Ext) or isinstance(args[1], Opaque) and args[1].name[0] == 'dtype'):
        d = args[1]
    if isinstance(d, (Ten, DD)):
        return cast(ip, st, t, lift_dt(d))
    if isinstance(d, Opaque) and d.name[0] == 'device':
        return t
    if isinstance(d, str):
        return t
    if d is None:
        return t
    if isinstance(d, Builtin) and d.name == 'int':
        return lift(lambda t: mk(ip, st, t.shape, [lift(lambda y: y if y.is_const() else R.atom(Atom('int', y)), num_(detx(x))) for x in read(t, st)], 'I'), t)
    return cast(ip, st, t, dt_of(d))


for _n, _d in {'double': 'D', 'float': 'F', 'int': 'I', 'long': 'I', 'byte': 'bool', 'bool': 'bool', 'half': 'H'}.items():
    TMETH[_n] = lambda ip, st, t, args, kw, d=_d: cast(ip, st, t, d)


@both('unsqueeze')
def m_unsqueeze(ip, st, t, args, kw):
    def f(t):
        d = ip.as_int(arg(args, kw, 0, 'dim'))
        d = d % (len(t.shape) + 1)
        return reshape(t, t.shape[:d] + (1,) + t.shape[d:])
    return lift(f, t)


@both('squeeze')
def m_squeeze(ip, st, t, args, kw):
    def f(t):
        d = arg(args, kw, 0, 'dim')
        if d is None:
            return reshape(t, tuple(x for x in t.shape if x != 1))
        d = ip.as_int(d) % max(len(t.shape), 1)
        return reshape(t, t.shape[:d] + t.shape[d + 1:]) if t.shape and t.shape[d] == 1 else t
    return lift(f, t)


@both('t')
def m_t(ip, st, t, args, kw):
    return lift(lambda t: permute(t, tuple(reversed(range(len(t.shape))))), t)


@both('transpose', 'swapaxes', 'swapdims')
def m_transpose(ip, st, t, args, kw):
    def f(t):
        n = len(t.shape)
        a, b = [ip.as_int(x) % n for x in (arg(args, kw, 0, 'dim0'), arg(args, kw, 1, 'dim1'))]
        p = list(range(n))
        p[a], p[b] = p[b], p[a]
        return permute(t, tuple(p))
    return lift(f, t)


@both('permute')
def m_permute(ip, st, t, args, kw):
    return lift(lambda t: permute(t, tuple(k % len(t.shape) for k in ints(ip, st, args))), t)


@both('reshape', 'view', 'view_as', 'reshape_as')
def m_reshape(ip, st, t, args, kw):
    def f(t):
        a = list(args) or [kw.get('shape')]
        if isinstance(a[0], Ten):
            sh = list(a[0].shape)
        else:
            sh = ints(ip, st, a)
        if -1 in sh:
            k = sh.index(-1)
            r = 1
            for j, x in enumerate(sh):
                if j != k:
                    r *= x
            sh[k] = size_of(t.shape) // max(r, 1)
        if size_of(sh) != size_of(t.shape):
            shape_error(ip, 'reshape of %r to %r' % (t.shape, sh))
        return reshape(t, tuple(sh))
    return lift(f, t)


@both('flatten', 'ravel')
def m_flatten(ip, st, t, args, kw):
    def f(t):
        a = ip.as_int(arg(args, kw, 0, 'start_dim', ZERO))
        return reshape(t, t.shape[:a] + (size_of(t.shape[a:]),))
    return lift(f, t)


@both('expand', 'expand_as', 'broadcast_to')
def m_expand(ip, st, t, args, kw):
    def f(t):
        sh = list(args[0].shape) if isinstance(args[0], Ten) else ints(ip, st, args)
        pad = (1,) * (len(sh) - len(t.shape)) + t.shape
        sh = tuple(p if s == -1 else s for s, p in zip(sh, pad))
        m = bget(A(pad, list(t.map), None), sh)
        return Ten(t.addr, sh, m, t.dt, t.det)
    return lift(f, t)


@both('repeat', 'tile')
def m_repeat(ip, st, t, args, kw):
    def f(t):
        r = ints(ip, st, args)
        pad = (1,) * (len(r) - len(t.shape)) + t.shape
        sh = tuple(a * b for a, b in zip(r, pad))
        s = strides(pad)
        e = read(t, st)
        out = [e[sum((i % p) * q for i, p, q in zip(idx, pad, s))] for idx in product(*[range(x) for x in sh])]
        return mk(ip, st, sh, out, t.dt)
    return lift(f, t)


@both('flip')
def m_flip(ip, st, t, args, kw):
    def f(t):
        for d in ints(ip, st, args or [kw['dims']]):
            d %= len(t.shape)
            t2 = t_slice(t, d, list(range(t.shape[d]))[::-1])
            t = t2
        return mk(ip, st, t.shape, read(t, st), t.dt)
    return lift(f, t)


@both('roll')
def m_roll(ip, st, t, args, kw):
    def f(t):
        s = ip.as_int(arg(args, kw, 0, 'shifts'))
        d = arg(args, kw, 1, 'dims')
        d = 0 if d is None else ip.as_int(d) % len(t.shape)
        n = t.shape[d]
        t2 = t_slice(t, d, [(k - s) % n for k in range(n)])
        return mk(ip, st, t2.shape, read(t2, st), t.dt)
    return lift(f, t)


@both('narrow')
def m_narrow(ip, st, t, args, kw):
    d, a, n = [ip.as_int(x) for x in args]
    return lift(lambda t: t_slice(t, d % len(t.shape), list(range(a, a + n))), t)


@both('select')
def m_select(ip, st, t, args, kw):
    d, k = [ip.as_int(x) for x in args]
    return lift(lambda t: t_select(ip, t, d, k % t.shape[d]), t)


@both('index_select')
def m_index_select(ip, st, t, args, kw):
    d = ip.as_int(args[0])
    ks = [ip.as_int(x) for x in elems(ip, args[1], st)]
    def f(t):
        v = t_slice(t, d, ks)
        return mk(ip, st, v.shape, read(v, st), t.dt)
    return lift(f, t)


@both('split', 'chunk')
def m_split(ip, st, t, args, kw):
    def f(t):
        d = ip.as_int(arg(args, kw, 1, 'dim', ZERO)) % len(t.shape)
        n = t.shape[d]
        a = args[0]
        if isinstance(a, (Ref, TupV)):
            sz = [ip.as_int(x) for x in ip.seq_items(a, st)]
        else:
            k = ip.as_int(a)
            sz = [min(k, n - j) for j in range(0, n, k)]
        out, o = [], 0
        for s in sz:
            out.append(t_slice(t, d, list(range(o, o + s))))
            o += s
        return TupV(out)
    return lift(f, t)


@both('unbind')
def m_unbind(ip, st, t, args, kw):
    d = ip.as_int(arg(args, kw, 0, 'dim', ZERO))
    return lift(lambda t: TupV([t_select(ip, t, d, k) for k in range(t.shape[d])]), t)


@both('diagonal')
def m_diagonal(ip, st, t, args, kw):
    def f(t):
        d1, d2 = ip.as_int(kw.get('dim1', ZERO)), ip.as_int(kw.get('dim2', ONE))
        n = len(t.shape)
        d1, d2 = d1 % n, d2 % n
        p = [k for k in range(n) if k not in (d1, d2)] + [d1, d2]
        t = permute(t, tuple(p))
        k = min(t.shape[-1], t.shape[-2])
        s = strides(t.shape)
        sh = t.shape[:-2] + (k,)
        m = []
        for idx in product(*[range(x) for x in sh]):
            full = idx[:-1] + (idx[-1], idx[-1])
            m.append(t.map[sum(i * j for i, j in zip(full, s))])
        return Ten(t.addr, sh, m, t.dt, t.det)
    return lift(f, t)


# ---- reductions
def reduce_(ip, st, t, dim, keep, f):
    """f(list of scalars) -> scalar along dim (None: all)."""
    def go(s, a):
        if dim is None:
            return mk(ip, s, (1,) * len(a.shape) if keep else (), [f(a.e)], a.dt)
        ds = dim if isinstance(dim, (list, tuple)) else [dim]
        ds = [d % max(len(a.shape), 1) for d in ds]
        st_ = strides(a.shape)
        rest = [d for d in range(len(a.shape)) if d not in ds]
        out = []
        for idx in product(*[range(a.shape[d]) for d in rest]):
            base = sum(i * st_[d] for i, d in zip(idx, rest))
            xs = []
            for j in product(*[range(a.shape[d]) for d in ds]):
                xs.append(a.e[base + sum(i * st_[d] for i, d in zip(j, ds))])
            out.append(f(xs))
        if keep:
            sh = tuple(1 if d in ds else x for d, x in enumerate(a.shape))
        else:
            sh = tuple(a.shape[d] for d in rest)
        return mk(ip, s, sh, out, a.dt)
    return lift_t(ip, st, go, t)


def sum_(xs):
    out = ZERO
    for x in xs:
        out = add(out, num_(x))
    return out


def prod_(xs):
    out = ONE
    for x in xs:
        out = mul(out, num_(x))
    return out


def max2(a, b):
    if a == b:
        return a
    return ite(c_lt(a, b), b, a)


def min2(a, b):
    if a == b:
        return a
    return ite(c_lt(b, a), b, a)


def maxl(xs):
    xs = [num_(x) for x in xs]
    out = xs[0]
    for x in xs[1:]:
        out = max2(out, x)
    return out


def minl(xs):
    xs = [num_(x) for x in xs]
    out = xs[0]
    for x in xs[1:]:
        out = min2(out, x)
    return out


def dims_arg(ip, st, args, kw, k=0):
    d = arg(args, kw, k, 'dim', kw.get('axis'))
    if d is None:
        return None
    if isinstance(d, (TupV, Ref)):
        return [ip.as_int(x) for x in ip.seq_items(d, st)]
    return ip.as_int(d)


def red(f, boolean=False):
    def m(ip, st, t, args, kw):
        return reduce_(ip, st, t, dims_arg(ip, st, args, kw), kw.get('keepdim', arg(args, kw, 1, 'keepdim', False)) is True, f)
    return m


both('sum')(red(sum_))
both('prod')(red(prod_))
both('mean')(red(lambda xs: div(sum_(xs), R.c(len(xs)))))


def all_(xs):
    g = True
    for x in xs:
        g = b_and(g, x if isb(x) else b_not(c_eq0(num_(x))))
    return g


def any_(xs):
    g = False
    for x in xs:
        g = b_or(g, x if isb(x) else b_not(c_eq0(num_(x))))
    return g


both('all')(red(all_))
both('any')(red(any_))
both('amax')(red(maxl))
both('amin')(red(minl))


def minmax(f, which):
    def m(ip, st, t, args, kw):
        if args and (isinstance(args[0], Ten) or any(isinstance(l, Ten) for l in all_leaves(args[0]))):
            return ewise(ip, st, lambda x, y: (max2 if which == 'max' else min2)(num_(x), num_(y)), t, args[0])
        d = dims_arg(ip, st, args, kw)
        if d is None:
            return reduce_(ip, st, t, None, False, f)
        keep = arg(args, kw, 1, 'keepdim', False) is True
        vals = reduce_(ip, st, t, d, keep, f)
        idx = reduce_(ip, st, t, d, keep, lambda xs: argl(xs, which))
        return NTup(['values', 'indices'], [vals, idx])
    return m


class NTup(TupV):
    __slots__ = ("names",)

    def __init__(self, names, items):
        super().__init__(items)
        self.names = names


def argl(xs, which):
    xs = [num_(x) for x in xs]
    best, bi = xs[0], ZERO
    for k, x in enumerate(xs[1:], 1):
        g = c_lt(best, x) if which == 'max' else c_lt(x, best)
        best, bi = ite(g, x, best), ite(g, R.c(k), bi)
    return bi


both('max')(minmax(maxl, 'max'))
both('min')(minmax(minl, 'min'))


@both('argmax')
def m_argmax(ip, st, t, args, kw):
    return reduce_(ip, st, t, dims_arg(ip, st, args, kw), False, lambda xs: argl(xs, 'max'))


@both('argmin')
def m_argmin(ip, st, t, args, kw):
    return reduce_(ip, st, t, dims_arg(ip, st, args, kw), False, lambda xs: argl(xs, 'min'))


EXT['torch.maximum'] = lambda ip, st, args, kw: ewise(ip, st, lambda x, y: max2(num_(x), num_(y)), *args)
EXT['torch.minimum'] = lambda ip, st, args, kw: ewise(ip, st, lambda x, y: min2(num_(x), num_(y)), *args)


def norm2(xs):
    return sqrt(sum_([mul(num_(x), num_(x)) for x in xs]))


@both('norm')
def m_norm(ip, st, t, args, kw):
    p = arg(args, kw, 0, 'p')
    d = dims_arg(ip, st, args, kw, 1)
    keep = arg(args, kw, 2, 'keepdim', False) is True
    if p is None or p == 'fro' or (isinstance(p, R) and p == R.c(2)):
        f = norm2
    elif isinstance(p, R) and p == ONE:
        f = lambda xs: sum_([mk_abs(num_(x)) for x in xs])
    else:
        f = lambda xs: maxl([mk_abs(num_(x)) for x in xs])
    return reduce_(ip, st, t, d, keep, f)


EXT['torch.linalg.norm'] = EXT['torch.norm']
EXT['torch.linalg.vector_norm'] = EXT['torch.norm']


# ---- products
@both('dot', 'inner', 'vdot')
def m_dot(ip, st, t, args, kw):
    def go(s, a, b):
        if len(a.shape) != 1 or a.shape != b.shape:
            shape_error(ip, 'dot of %r and %r' % (a.shape, b.shape))
        return mk(ip, s, (), [sum_([mul(num_(x), num_(y)) for x, y in zip(a.e, b.e)])], promote([a, b]))
    return lift_t(ip, st, go, t, args[0])


def mm(ip, a, b):
    """Elements and shape of a @ b (2-d)."""
    n, k, m = a.shape[0], a.shape[1], b.shape[1]
    if b.shape[0] != k:
        shape_error(ip, 'product of %r and %r' % (a.shape, b.shape))
    out = []
    for i in range(n):
        for j in range(m):
            acc = ZERO
            for l in range(k):
                x, y = a.e[i * k + l], b.e[l * m + j]
                if isinstance(x, R) and x.is_zero() or isinstance(y, R) and y.is_zero():
                    continue
                acc = add(acc, mul(num_(x), num_(y)))
            out.append(acc)
    return out


@both('matmul', 'mm', 'mv', 'bmm', '__matmul__')
def m_matmul(ip, st, t, args, kw):
    def go(s, a, b):
        dt = promote([a, b])
        sa, sb = a.shape, b.shape
        if len(sa) == 1 and len(sb) == 1:
            return mk(ip, s, (), [sum_([mul(num_(x), num_(y)) for x, y in zip(a.e, b.e)])], dt)
        a1 = A((1,) + sa, a.e, a.dt) if len(sa) == 1 else a
        b1 = A(sb + (1,), b.e, b.dt) if len(sb) == 1 else b
        if len(a1.shape) == 2 and len(b1.shape) == 2:
            e, sh = mm(ip, a1, b1), (a1.shape[0], b1.shape[1])
        else:
            ba, bb = a1.shape[:-2], b1.shape[:-2]
            batch = bshape(ip, ba, bb)
            A1 = bget(A(a1.shape, a1.e, None), batch + a1.shape[-2:])
            B1 = bget(A(b1.shape, b1.e, None), batch + b1.shape[-2:])
            na, nb = size_of(a1.shape[-2:]), size_of(b1.shape[-2:])
            e = []
            for k in range(size_of(batch)):
                e += mm(ip, A(a1.shape[-2:], A1[k * na:(k + 1) * na], None), A(b1.shape[-2:], B1[k * nb:(k + 1) * nb], None))
            sh = batch + (a1.shape[-2], b1.shape[-1])
        if len(sa) == 1:
            sh = sh[:-2] + sh[-1:]
        if len(sb) == 1:
            sh = sh[:-1]
        return mk(ip, s, sh, e, dt)
    return lift_t(ip, st, go, t, args[0])


f_matmul = EXT['torch.matmul']


@both('ger', 'outer')
def m_ger(ip, st, t, args, kw):
    def go(s, a, b):
        return mk(ip, s, (len(a.e), len(b.e)), [mul(num_(x), num_(y)) for x in a.e for y in b.e], promote([a, b]))
    return lift_t(ip, st, go, t, args[0])


@both('cross')
def m_cross(ip, st, t, args, kw):
    def go(s, a, b):
        if a.shape != (3,):
            ip.imprecise('cross product of shape %r' % (a.shape,))
        x, y = a.e, b.e
        return mk(ip, s, (3,), [sub(mul(x[(k + 1) % 3], y[(k + 2) % 3]), mul(x[(k + 2) % 3], y[(k + 1) % 3])) for k in range(3)], promote([a, b]))
    return lift_t(ip, st, go, t, args[0])


def arith_m(f):
    def m(ip, st, t, args, kw):
        al = kw.get('alpha')
        b = args[0] if args else kw.get('other')
        if al is not None:
            b = ewise(ip, st, lambda x, y: mul(num_(x), num_(y)), b, al)
        return ewise(ip, st, lambda x, y: f(num_(x), num_(y)), t, b)
    return m


for _n, _f in {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'true_divide': div, 'multiply': mul, 'subtract': sub,
               'divide': div,
               'atan2': mk_atan2, 'arctan2': mk_atan2, 'hypot': lambda x, y: sqrt(add(mul(x, x), mul(y, y)))}.items():
    both(_n)(arith_m(_f))
for _n in ('sub', 'add', 'mul', 'div'):
    TMETH['__%s__' % _n] = TMETH[_n]


@both('pow')
def m_pow(ip, st, t, args, kw):
    return t_binop(ip, 'Pow', t, args[0], st)


for _n, _o in {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}.items():
    both(_n)(lambda ip, st, t, args, kw, o=_o: t_compare(ip, o, t, args[0], st))


@both('equal')
def m_equal(ip, st, t, args, kw):
    a, b = rd(ip, t, st), rd(ip, args[0], st)
    if a.shape != b.shape:
        return False
    return all_([c_eq(x, y) for x, y in zip(a.e, b.e)])


@both('clamp', 'clip')
def m_clamp(ip, st, t, args, kw):
    lo, hi = arg(args, kw, 0, 'min'), arg(args, kw, 1, 'max')
    if lo is not None:
        t = ewise(ip, st, lambda x, y: max2(num_(x), num_(y)), t, lo)
    if hi is not None:
        t = ewise(ip, st, lambda x, y: min2(num_(x), num_(y)), t, hi)
    return t


def inplace_m(f):
    def m(ip, st, t, args, kw):
        b = args[0] if args else None
        al = kw.get('alpha')
        if al is not None:
            b = ewise(ip, st, lambda x, y: mul(num_(x), num_(y)), b, al)
        def g(t, s):
            r = ewise(ip, s, lambda x, y: f(num_(x), num_(y)), t, b) if b is not None else ewise(ip, s, lambda x: f(num_(x)), t)
            t_write(ip, t, r, s)
            return t
        return ip.fork(t, st, g)
    return m


for _n, _f in {'add_': add, 'sub_': sub, 'mul_': mul, 'div_': div, 'copy_': lambda x, y: y, 'fill_': lambda x, y: y,
               'neg_': neg, 'abs_': mk_abs, 'zero_': lambda x: ZERO, 'sqrt_': sqrt, 'cos_': mk_cos, 'sin_': mk_sin,
               'set_': lambda x, y: y}.items():
    TMETH[_n] = inplace_m(_f)


@meth('masked_fill_')
def m_masked_fill(ip, st, t, args, kw):
    r = ewise(ip, st, lambda m, x, y: ite(m, num_(y), num_(x)), args[0], t, args[1])
    t_write(ip, t, r, st)
    return t


@meth('fill_diagonal_')
def m_fill_diag(ip, st, t, args, kw):
    t_write(ip, m_diagonal(ip, st, t, [], {}), args[0], st)
    return t


@both('where')
def m_where(ip, st, t, args, kw):
    return ewise(ip, st, lambda m, x, y: ite(tobool(m), num_(x), num_(y)), t, args[0], args[1])


@meth('where')
def m_where_m(ip, st, t, args, kw):
    return ewise(ip, st, lambda x, m, y: ite(tobool(m), num_(x), num_(y)), t, args[0], args[1])


@both('masked_fill')
def m_masked_fill_new(ip, st, t, args, kw):
    return ewise(ip, st, lambda m, x, y: ite(tobool(m), num_(y), num_(x)), args[0], t, args[1])


@meth('clamp_')
def m_clamp_(ip, st, t, args, kw):
    r = m_clamp(ip, st, t, args, kw)
    t_write(ip, t, r, st)
    return t


for _n, _o in {'maximum': lambda x, y: max2(x, y), 'minimum': lambda x, y: min2(x, y)}.items():
    both(_n)(lambda ip, st, t, args, kw, o=_o: ewise(ip, st, lambda x, y: o(num_(x), num_(y)), t, args[0]))


@both('kron')
def m_kron(ip, st, t, args, kw):
    def go(s, a, b):
        if len(a.shape) != 2 or len(b.shape) != 2:
            ip.imprecise('kron of shapes %r %r' % (a.shape, b.shape))
        (n, m), (p, q) = a.shape, b.shape
        return mk(ip, s, (n * p, m * q), [mul(num_(a.e[i * m + j]), num_(b.e[k * q + l]))
                                          for i in range(n) for k in range(p) for j in range(m) for l in range(q)], promote([a, b]))
    return lift_t(ip, st, go, t, args[0])


@both('repeat_interleave')
def m_rep_inter(ip, st, t, args, kw):
    r, d = ip.as_int(arg(args, kw, 0, 'repeats')), arg(args, kw, 1, 'dim')
    def go(s, a):
        if d is None:
            return mk(ip, s, (len(a.e) * r,), [x for x in a.e for _ in range(r)], a.dt)
        k = ip.as_int(d) % len(a.shape)
        st_ = strides(a.shape)
        sh = a.shape[:k] + (a.shape[k] * r,) + a.shape[k + 1:]
        return mk(ip, s, sh, [a.e[sum((i // r if j == k else i) * q for j, (i, q) in enumerate(zip(ix, st_)))]
                              for ix in product(*[range(x) for x in sh])], a.dt)
    return lift_t(ip, st, go, t)


@both('trace')
def m_trace(ip, st, t, args, kw):
    def go(s, a):
        n, m = a.shape
        r = ZERO
        for i in range(min(n, m)):
            r = add(r, num_(a.e[i * m + i]))
        return mk(ip, s, (), [r], a.dt)
    return lift_t(ip, st, go, t)


@both('addmm', 'addmv', 'baddbmm')
def m_addmm(ip, st, t, args, kw):
    p = m_matmul(ip, st, args[0], [args[1]], {})
    if kw.get('alpha') is not None:
        p = ewise(ip, st, lambda x, y: mul(num_(x), num_(y)), p, kw['alpha'])
    if kw.get('beta') is not None:
        t = ewise(ip, st, lambda x, y: mul(num_(x), num_(y)), t, kw['beta'])
    return ewise(ip, st, lambda x, y: add(num_(x), num_(y)), t, p)


@both('diag')
def m_diag(ip, st, t, args, kw):
    def go(s, a):
        if len(a.shape) == 1:
            n = len(a.e)
            return mk(ip, s, (n, n), [a.e[i] if i == j else ZERO for i in range(n) for j in range(n)], a.dt)
        n = min(a.shape)
        return mk(ip, s, (n,), [a.e[i * a.shape[1] + i] for i in range(n)], a.dt)
    return lift_t(ip, st, go, t)


@both('diag_embed')
def m_diag_embed(ip, st, t, args, kw):
    def go(s, a):
        n = a.shape[-1]
        b = size_of(a.shape[:-1])
        return mk(ip, s, a.shape[:-1] + (n, n), [a.e[k * n + i] if i == j else ZERO for k in range(b) for i in range(n) for j in range(n)], a.dt)
    return lift_t(ip, st, go, t)


def tri(cond):
    def m(ip, st, t, args, kw):
        d = ip.as_int(arg(args, kw, 0, 'diagonal', ZERO))
        def go(s, a):
            n, m_ = a.shape[-2:]
            b = size_of(a.shape[:-2])
            return mk(ip, s, a.shape, [a.e[k * n * m_ + i * m_ + j] if cond(i, j, d) else ZERO for k in range(b) for i in range(n) for j in range(m_)], a.dt)
        return lift_t(ip, st, go, t)
    return m


both('triu')(tri(lambda i, j, d: j - i >= d))
both('tril')(tri(lambda i, j, d: j - i <= d))
for _n in ('triu', 'tril'):
    def _m(ip, st, t, args, kw, f=TMETH[_n]):
        t_write(ip, t, f(ip, st, t, args, kw), st)
        return t
    TMETH[_n + '_'] = _m


@meth('masked_scatter_')
def m_masked_scatter(ip, st, t, args, kw):
    mask, src = args
    if bshape(ip, rd(ip, mask, st).shape, t.shape) != t.shape:
        shape_error(ip, 'mask of shape %r for %r' % (rd(ip, mask, st).shape, t.shape))
    m = [tobool(x) for x in bget(rd(ip, mask, st), t.shape)]
    old = read(t, st)
    if isinstance(src, Masked):
        if [tobool(x) for x in bget(rd(ip, src.mask, st), src.t.shape)] != m:
            ip.imprecise('masked write with another mask')
        new = read(src.t, st)
        out = [ite(g, num_(x), num_(y)) for g, x, y in zip(m, new, old)]
    else:
        if not all(isinstance(x, bool) for x in m):
            ip.imprecise('masked scatter under an unknown mask')
        src = rd(ip, src, st).e
        if sum(m) > len(src):
            shape_error(ip, 'masked scatter of %d values into %d places' % (len(src), sum(m)))
        k, out = 0, []
        for g, y in zip(m, old):
            out.append(num_(src[k]) if g else num_(y))
            k += bool(g)
    t_write(ip, t, mk(ip, st, t.shape, out, t.dt), st)
    return t


# ---- LU factorisation with a chosen pivoting (any row order a library may choose)
def hide(x):
    """The same number as one opaque quotient."""
    if x.is_const() or len(x.num.t) + len(x.den.t) <= 3:
        return x
    return R.atom(Atom('q', x, ONE))


LU_CALLS = [0]


def lu_pivots(ip, n, b):
    LU_CALLS[0] += 1
    f = getattr(ip, 'lu_choice', None)
    return f(LU_CALLS[0], b, n) if f else list(range(n))


@meth('btrifact', 'lu_factor')
def m_btrifact(ip, st, t, args, kw):
    a = rd(ip, t, st)
    n = a.shape[-1]
    if a.shape[-2] != n or len(a.shape) not in (2, 3):
        shape_error(ip, 'LU factorisation of shape %r' % (a.shape,))
    nb = size_of(a.shape[:-2])
    piv = kw.get('pivot', args[0] if args else True)
    if not isinstance(piv, bool):
        ip.imprecise('unknown pivoting option')
    lu, ps = [], []
    for b in range(nb):
        m = [[hide(num_(detx(a.e[(b * n + i) * n + j]))) for j in range(n)] for i in range(n)]
        order = lu_pivots(ip, n, b) if piv else list(range(n))
        for k in range(n):
            p = order[k]
            while m[p][k] == ZERO and p + 1 < n:       # a zero pivot is never chosen when there is another one
                p += 1
            if m[p][k] == ZERO:
                p = next((i for i in range(k, n) if m[i][k] != ZERO), k)
            order[k] = p
            m[k], m[p] = m[p], m[k]
            for i in range(k + 1, n):
                m[i][k] = hide(div(m[i][k], m[k][k]))
                for j in range(k + 1, n):
                    m[i][j] = hide(sub(m[i][j], mul(m[i][k], m[k][j])))
        lu += [x for r in m for x in r]
        ps += [R.c(k + 1) for k in order]
    return TupV([mk(ip, st, a.shape, lu, a.dt), mk(ip, st, a.shape[:-1], ps, 'I')])


def lu_solve(ip, st, b, lu, piv):
    n = lu.shape[-1]
    nb = size_of(lu.shape[:-2])
    vec = len(b.shape) == len(lu.shape) - 1
    if b.shape[:len(lu.shape) - 1] != lu.shape[:-1] or piv.shape != lu.shape[:-1]:
        shape_error(ip, 'LU solve with shapes %r, %r and pivots %r' % (b.shape, lu.shape, piv.shape))
    nc = 1 if vec else b.shape[-1]
    out = [None] * (nb * n * nc)
    for k in range(nb):
        m = [[num_(lu.e[(k * n + i) * n + j]) for j in range(n)] for i in range(n)]
        for c in range(nc):
            x = [hide(num_(detx(b.e[(k * n + i) * nc + c]))) for i in range(n)]
            for i in range(n):
                p = ip.as_int(num_(piv.e[k * n + i])) - 1
                if not 0 <= p < n:
                    shape_error(ip, 'pivot %d out of range' % (p + 1))
                x[i], x[p] = x[p], x[i]
            for i in range(n):
                for j in range(i):
                    x[i] = hide(sub(x[i], mul(m[i][j], x[j])))
            for i in reversed(range(n)):
                for j in range(i + 1, n):
                    x[i] = hide(sub(x[i], mul(m[i][j], x[j])))
                x[i] = hide(div(x[i], m[i][i]))
            for i in range(n):
                out[(k * n + i) * nc + c] = x[i]
    return mk(ip, st, b.shape, out, b.dt)


@meth('btrisolve')
def m_btrisolve(ip, st, t, args, kw):
    return lu_solve(ip, st, rd(ip, t, st), rd(ip, args[0], st), rd(ip, args[1], st))


@ext('torch.lu_solve')
def f_lu_solve(ip, st, args, kw):
    return lu_solve(ip, st, rd(ip, args[0], st), rd(ip, args[1], st), rd(ip, args[2], st))


EXT['torch.linalg.lu_factor'] = lambda ip, st, args, kw: m_btrifact(ip, st, args[0], list(args[1:]), kw)
EXT['torch.btrifact'] = EXT['torch.linalg.lu_factor']
EXT['torch.btrisolve'] = lambda ip, st, args, kw: m_btrisolve(ip, st, args[0], list(args[1:]), kw)


# ---- construction
@ext('torch.cat', 'torch.concat', 'torch.concatenate')
def f_cat(ip, st, args, kw):
    ts = ip.seq_items(args[0], st)
    d = ip.as_int(arg(args, kw, 1, 'dim', kw.get('axis', ZERO)))

    def go(s, *arrs):
        arrs = [a for a in arrs if a.shape != (0,)] or list(arrs[:1])
        nd = len(arrs[0].shape)
        if nd == 0:
            shape_error(ip, 'zero-dimensional tensor cannot be concatenated')
        dd = d % nd
        for a in arrs:
            if len(a.shape) != nd or any(k != dd and a.shape[k] != arrs[0].shape[k] for k in range(nd)):
                shape_error(ip, 'cat of %r along %d' % ([x.shape for x in arrs], dd))
        sh = arrs[0].shape[:dd] + (sum(a.shape[dd] for a in arrs),) + arrs[0].shape[dd + 1:]
        out = []
        outer = size_of(arrs[0].shape[:dd])
        for o in range(outer):
            for a in arrs:
                n = size_of(a.shape[dd:])
                out += a.e[o * n:(o + 1) * n]
        dts = [a for a in arrs]
        return mk(ip, s, sh, out, mixdt([a.dt for a in dts]) if len({a.dt for a in dts}) > 1 else dts[0].dt)
    return lift_t(ip, st, go, *ts)


@ext('torch.stack')
def f_stack(ip, st, args, kw):
    ts = ip.seq_items(args[0], st)
    d = ip.as_int(arg(args, kw, 1, 'dim', ZERO))

    def go(s, *arrs):
        nd = len(arrs[0].shape) + 1
        dd = d % nd
        for a in arrs:
            if a.shape != arrs[0].shape:
                shape_error(ip, 'stack of %r' % ([x.shape for x in arrs],))
        sh = arrs[0].shape[:dd] + (len(arrs),) + arrs[0].shape[dd:]
        inner = size_of(arrs[0].shape[dd:])
        out = []
        for o in range(size_of(arrs[0].shape[:dd])):
            for a in arrs:
                out += a.e[o * inner:(o + 1) * inner]
        return mk(ip, s, sh, out, mixdt([a.dt for a in arrs]) if len({a.dt for a in arrs}) > 1 else arrs[0].dt)
    return lift_t(ip, st, go, *ts)


EXT['torch.hstack'] = lambda ip, st, args, kw: f_cat(ip, st, [args[0]], {'dim': ZERO if len(rd(ip, ip.seq_items(args[0], st)[0], st).shape) < 2 else ONE})


@ext('torch.vstack')
def f_vstack(ip, st, args, kw):
    ts = [reshape(t, (1,) + t.shape) if isinstance(t, Ten) and len(t.shape) == 1 else t for t in ip.seq_items(args[0], st)]
    return f_cat(ip, st, [TupV(ts)], {})


@ext('torch.block_diag')
def f_block_diag(ip, st, args, kw):
    def go(s, *arrs):
        n, m = sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)
        out = [ZERO] * (n * m)
        r = c = 0
        for a in arrs:
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    out[(r + i) * m + c + j] = a.e[i * a.shape[1] + j]
            r += a.shape[0]
            c += a.shape[1]
        return mk(ip, s, (n, m), out, promote(arrs))
    return lift_t(ip, st, go, *args)


def filled(val):
    def f(ip, st, args, kw, dt='F'):
        sh = ints(ip, st, args if args else [kw['size']])
        v = val() if callable(val) else val
        return mk(ip, st, tuple(sh), [v] * size_of(sh) if not callable(val) else [val() for _ in range(size_of(sh))],
                  call_dt(ip, kw, dt))
    return f


def emptyv():
    return R.atom(Atom('uninit'))


def _full(ip, st, args, kw, dt='F'):
    sh = ints(ip, st, [args[0]])
    v = scalar(ip, arg(args, kw, 1, 'fill_value'), st)
    return mk(ip, st, tuple(sh), [v] * size_of(sh), call_dt(ip, kw, dt))


for _n, _v in {'zeros': ZERO, 'ones': ONE, 'empty': emptyv}.items():
    EXT['torch.' + _n] = filled(_v)
    TMETH['new_' + _n] = lambda ip, st, t, args, kw, f=filled(_v): f(ip, st, args, kw, lift_dt(t))
    EXT['torch.%s_like' % _n] = lambda ip, st, args, kw, v=_v: mk(
        ip, st, args[0].shape, [v() if callable(v) else v for _ in range(size_of(args[0].shape))], call_dt(ip, kw, args[0].dt))
EXT['torch.full'] = _full
TMETH['new_full'] = lambda ip, st, t, args, kw: _full(ip, st, args, kw, lift_dt(t))


@ext('torch.eye')
def f_eye(ip, st, args, kw):
    n = ip.as_int(args[0])
    m = ip.as_int(args[1]) if len(args) > 1 else n
    return mk(ip, st, (n, m), [ONE if i == j else ZERO for i in range(n) for j in range(m)], call_dt(ip, kw, 'F'))


@ext('torch.tensor', 'torch.as_tensor')
def f_tensor(ip, st, args, kw):
    a = from_nested(ip, args[0], st)
    dt = call_dt(ip, kw, a.dt or 'F')
    return mk(ip, st, a.shape, [num_(x) if dt != 'bool' else x for x in a.e], dt)


for _n, _d in {'DoubleTensor': 'D', 'FloatTensor': 'F', 'IntTensor': 'I', 'LongTensor': 'I', 'Tensor': 'F'}.items():
    def _mk(ip, st, args, kw, d=_d):
        if len(args) == 1 and isinstance(args[0], (Ref, TupV, SeqV)):
            a = from_nested(ip, args[0], st)
            return mk(ip, st, a.shape, [num_(x) for x in a.e], d)
        sh = ints(ip, st, args)
        return mk(ip, st, tuple(sh), [emptyv()] * size_of(sh), d)
    EXT['torch.' + _n] = _mk


@meth('new_tensor')
def m_new_tensor(ip, st, t, args, kw):
    a = from_nested(ip, args[0], st)
    return mk(ip, st, a.shape, [num_(x) for x in a.e], call_dt(ip, kw, lift_dt(t)))


@ext('torch.from_numpy')
def f_from_numpy(ip, st, args, kw):
    return detv(ip, args[0], st)


@ext('torch.arange')
def f_arange(ip, st, args, kw):
    v = [ip.as_int(a) for a in args]
    r = list(range(*v))
    return mk(ip, st, (len(r),), [R.c(x) for x in r], call_dt(ip, kw, 'I'))


@ext('torch.is_tensor')
def f_is_tensor(ip, st, args, kw):
    return lift(lambda x: isinstance(x, Ten), args[0])


EXT['torch.no_grad'] = lambda ip, st, args, kw: Opaque(('no_grad',))
EXT['torch.set_grad_enabled'] = lambda ip, st, args, kw: Opaque(('no_grad',)) if args[0] is False else Opaque(('grad',))
EXT['torch.enable_grad'] = lambda ip, st, args, kw: Opaque(('grad',))
EXT['torch.device'] = lambda ip, st, args, kw: Opaque(('device',))
EXT['torch.broadcast_tensors'] = None
del EXT['torch.broadcast_tensors']
CONSTANTS['torch.strided'] = Opaque(('layout', 'strided'))
CONSTANTS['torch.pi'] = R.atom(PI)
CONSTANTS['torch.inf'] = R.atom(Atom('sym', 'inf'))


# ---- inverse
def det_minor(m, rows, cols):
    if not rows:
        return ONE
    r = rows[0]
    out = ZERO
    for k, c in enumerate(cols):
        x = m[r][c]
        if isinstance(x, R) and x.is_zero():
            continue
        d = det_minor(m, rows[1:], cols[:k] + cols[k + 1:])
        t = mul(x, d)
        out = add(out, t) if k % 2 == 0 else sub(out, t)
    return out


def inverse_rows(m):
    """Inverse of a square matrix given as rows of scalars: exact by blocks of size <= 3, else opaque."""
    n = len(m)
    # connected blocks
    comp = list(range(n))

    def find(a):
        while comp[a] != a:
            a = comp[a]
        return a
    for i in range(n):
        for j in range(n):
            if not (isinstance(m[i][j], R) and m[i][j].is_zero()):
                comp[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    out = [[ZERO] * n for _ in range(n)]
    for g in groups.values():
        if len(g) <= 3:
            d = det_minor(m, g, g)
            for a, i in enumerate(g):
                for b, j in enumerate(g):
                    rows = [x for x in g if x != j]
                    cols = [x for x in g if x != i]
                    c = det_minor(m, rows, cols)
                    out[i][j] = div(c if (a + b) % 2 == 0 else neg(c), d)
        else:
            key = tuple(tuple(m[i][j] for j in g) for i in g)
            for a, i in enumerate(g):
                for b, j in enumerate(g):
                    out[i][j] = R.atom(Atom('inv', key, tuple(g), a, b))
    return out


@both('inverse')
def m_inverse(ip, st, t, args, kw):
    def go(s, a):
        if len(a.shape) < 2 or a.shape[-1] != a.shape[-2]:
            shape_error(ip, 'inverse of shape %r' % (a.shape,))
        n = a.shape[-1]
        out = []
        for k in range(size_of(a.shape[:-2])):
            e = a.e[k * n * n:(k + 1) * n * n]
            r = inverse_rows([[num_(e[i * n + j]) for j in range(n)] for i in range(n)])
            out += [x for row in r for x in row]
        return mk(ip, s, a.shape, out, a.dt)
    return lift_t(ip, st, go, t)


EXT['torch.linalg.inv'] = EXT['torch.inverse']


@ext('torch.linalg.solve')
def f_solve(ip, st, args, kw):
    inv = m_inverse(ip, st, args[0], [], {})
    return m_matmul(ip, st, inv, [args[1]], {})


@both('det')
def m_det(ip, st, t, args, kw):
    def go(s, a):
        n = a.shape[-1]
        return mk(ip, s, (), [det_minor([[a.e[i * n + j] for j in range(n)] for i in range(n)], list(range(n)), list(range(n)))], a.dt)
    return lift_t(ip, st, go, t)


EXT['torch.linalg.det'] = EXT['torch.det']


@ext('torch.einsum')
def f_einsum(ip, st, args, kw):
    spec = args[0].replace(' ', '')
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')

    def go(s, *arrs):
        dims = {}
        for t, a in zip(ins, arrs):
            for c, n in zip(t, a.shape):
                dims[c] = n
        r = rhs or ''.join(sorted(c for c in dims if lhs.count(c) == 1))
        free = [c for c in dims if c not in r]
        out = []
        for idx in product(*[range(dims[c]) for c in r]):
            env = dict(zip(r, idx))
            acc = ZERO
            for j in product(*[range(dims[c]) for c in free]):
                env.update(zip(free, j))
                p = ONE
                for t, a in zip(ins, arrs):
                    ss = strides(a.shape)
                    p = mul(p, num_(a.e[sum(env[c] * q for c, q in zip(t, ss))]))
                acc = add(acc, p)
            out.append(acc)
        return mk(ip, s, tuple(dims[c] for c in r), out, promote(arrs))
    return lift_t(ip, st, go, *args[1:])


# ================================================================= calls
def call_builtin(ip, f, args, kw, st):
    if f.recv is not None:
        return call_method(ip, f, args, kw, st)
    fn = BFN.get(f.name)
    if fn is None:
        ip.imprecise('builtin %s not modelled' % f.name)
    return fn(ip, st, args, kw)


def call_method(ip, f, args, kw, st):
    r = f.recv
    if isinstance(r, Ten):
        return TMETH[f.name](ip, st, r, args, kw)
    if isinstance(r, NTup) and f.name in r.names:
        ip.imprecise('call of a field')
    if isinstance(r, Obj):
        for b in ([r.cls.name] if r.cls else []) + (r.cls.ext_bases() if r.cls else []):
            m = OBJM.get((b, f.name))
            if m is not None:
                return m(ip, st, r, args, kw)
        if f.name.startswith('object.'):
            return None
    if isinstance(r, SuperV) or f.name.startswith('object.'):
        if f.name == 'object.__setattr__':
            st.heap[(r.addr, args[-2])] = args[-1]
        return None
    if isinstance(r, Ref):
        m = LMETH.get((r.kind, f.name))
        if m is None:
            ip.imprecise('%s.%s not modelled' % (r.kind, f.name))
        return m(ip, st, r, args, kw)
    if isinstance(r, TupV):
        if f.name == 'index':
            return LMETH[('list', 'index')](ip, st, ip.new_list(st, r.items), args, kw)
        if f.name == 'count':
            return LMETH[('list', 'count')](ip, st, ip.new_list(st, r.items), args, kw)
    if isinstance(r, str):
        ks = I().keyname
        cargs = []
        for a in args:
            if isinstance(a, str):
                cargs.append(a)
            elif isinstance(a, R) and a.is_const():
                c = a.const()
                cargs.append(int(c) if c.denominator == 1 else float(c))
            else:
                if f.name == 'join':
                    it = ip.seq_items(a, st)
                    if all(isinstance(x, str) for x in it):
                        return r.join(it)
                return Opaque((f.name, r, tuple(ks(x, st) for x in args)))
        if f.name in ('format', 'lower', 'upper', 'strip', 'replace', 'startswith', 'endswith', 'split', 'join', 'title', 'capitalize', 'zfill', 'rjust', 'ljust'):
            if f.name == 'format' and kw:
                pk = {k: I().plain(v) for k, v in kw.items()}
                if None not in pk.values():
                    return r.format(*cargs, **pk)
                return Opaque((f.name, r, tuple(sorted((k, ks(v, st)) for k, v in kw.items()))))
            v = getattr(r, f.name)(*cargs)
            if isinstance(v, list):
                return ip.new_list(st, v)
            return v
        return Opaque((f.name, r, tuple(ks(x, st) for x in args)))
    if isinstance(r, R):
        if f.name == 'is_integer':
            return r.is_const() and r.const().denominator == 1
        if f.name in ('item', 'conjugate'):
            return r
    if isinstance(r, bool) and f.name == 'item':
        return r
    ip.imprecise('method %s of %r' % (f.name, r))


def call_ext(ip, path, args, kw, st):
    ip.ext_calls[path] = ip.ext_calls.get(path, 0) + 1
    ov = ip.ext_over.get(path)
    if ov is not None:
        return ov(ip, st, args, kw)
    f = EXT.get(path)
    if f is not None:
        return f(ip, st, args, kw)
    parts = path.split('.')
    if parts[0] == 'torch' and len(parts) == 3 and parts[1] == 'Tensor' and parts[2] in TMETH:
        return TMETH[parts[2]](ip, st, args[0], list(args[1:]), kw)
    keyname = I().keyname
    ip.unknown_ext.add(path)
    return Opaque((path, tuple(keyname(a, st) for a in args)))


def call_obj(ip, o, args, kw, st):
    h = ip.obj_call_hook
    if h is not None:
        return h(ip, st, o, args, kw)
    ip.imprecise('call of %r' % (o,))


def ext_init(ip, o, args, kw, st):
    return None


def obj_attr(ip, o, name, st):
    if o.cls is None:
        return None
    for b in [o.cls.name] + o.cls.ext_bases():
        if (b, name) in OBJM:
            return Builtin(name, o)
    if o.cls.ext_bases() and name == '__init__':
        return Builtin('object.__init__', o)
    return None


# ---- lists
def content_apply(ip, ref, st, f):
    """f(content leaf, state) run per leaf of the list contents."""
    c = st.heap[(ref.addr, 'c')]
    return ip.fork(c, st, f)


def list_append(ip, ref, v, st):
    AppL = I().AppL
    def f(c, s):
        if isinstance(c, LV):
            s.heap[(ref.addr, 'c')] = LV(c.items + (v,))
        elif isinstance(c, AppL):
            s.heap[(ref.addr, 'c')] = AppL(c.base, c.items + (v,))
        elif isinstance(c, PhiL):
            s.heap[(ref.addr, 'c')] = AppL(c, (v,))
        else:
            s.heap[(ref.addr, 'c')] = ip.cat_content(c, LV((v,)), s)
        ip.wsite[(ref.addr, 'c')] = ip.here()
        return None
    c = st.heap[(ref.addr, 'c')]
    if isinstance(c, DD) and all(isinstance(l, LV) for l in all_leaves(c)):
        st.heap[(ref.addr, 'c')] = lift(lambda l: LV(l.items + (v,)), c)
        return None
    return content_apply(ip, ref, st, f)


def list_extend(ip, ref, v, st):
    c2 = None
    if isinstance(v, Ref):
        c2 = st.heap[(v.addr, 'c')]
    elif isinstance(v, DD):
        return ip.fork(v, st, lambda l, s: list_extend(ip, ref, l, s))
    if isinstance(v, Opaque):
        return None
    if c2 is None or isinstance(first(c2), DV):
        c2 = LV(ip.seq_items(v, st))
    c = st.heap[(ref.addr, 'c')]
    st.heap[(ref.addr, 'c')] = lift(lambda a, b: ip.cat_content(a, b, st), c, c2)
    ip.wsite[(ref.addr, 'c')] = ip.here()
    return None


def first(v):
    return I().first_leaf(v)


LMETH[('list', 'append')] = lambda ip, st, r, args, kw: list_append(ip, r, args[0], st)
LMETH[('list', 'extend')] = lambda ip, st, r, args, kw: list_extend(ip, r, args[0], st)


def setc(f):
    """In-place change of a list whose contents are known."""
    def m(ip, st, r, args, kw):
        def g(c, s):
            if not isinstance(c, LV):
                ip.imprecise('list of unknown length changed')
            l = list(c.items)
            v = f(ip, s, l, args, kw)
            s.heap[(r.addr, 'c')] = LV(l)
            ip.wsite[(r.addr, 'c')] = ip.here()
            return v
        return content_apply(ip, r, st, g)
    return m


LMETH[('list', 'insert')] = setc(lambda ip, st, l, a, kw: l.insert(ip.as_int(a[0]), a[1]))
LMETH[('list', 'clear')] = setc(lambda ip, st, l, a, kw: l.clear())
LMETH[('set', 'clear')] = LMETH[('list', 'clear')]
LMETH[('list', 'reverse')] = setc(lambda ip, st, l, a, kw: l.reverse())


def _pop(ip, st, l, a, kw):
    return l.pop(ip.as_int(a[0]) if a else -1)


LMETH[('list', 'pop')] = setc(_pop)


def _remove(ip, st, l, a, kw):
    for k, x in enumerate(l):
        if x == a[0]:
            del l[k]
            return None
    ip.imprecise('remove of an unknown element')


LMETH[('list', 'remove')] = setc(_remove)


def _copy(ip, st, r, args, kw):
    a = ip.new()
    st.heap[(a, 'c')] = st.heap[(r.addr, 'c')]
    return Ref(r.kind, a)


for _k in ('list', 'dict', 'set'):
    LMETH[(_k, 'copy')] = _copy


def _index(ip, st, r, args, kw):
    def g(c, s):
        if not isinstance(c, LV):
            ip.imprecise('index() in a list of unknown length')
        out = None
        for k, x in reversed(list(enumerate(c.items))):
            e = ip.compare('Eq', x, args[0], s)
            e = ip.truth(e, s)
            out = R.c(k) if e is True else out if e is False else (ite(e, R.c(k), out) if out is not None else R.c(k))
        if out is None:
            ip.fail('ValueError', 'not in list', s)
        return out
    return content_apply(ip, r, st, g)


LMETH[('list', 'index')] = _index


def _count(ip, st, r, args, kw):
    n = ZERO
    for x in ip.seq_items(r, st):
        n = add(n, ite(ip.truth(ip.compare('Eq', x, args[0], st), st), ONE, ZERO))
    return n


LMETH[('list', 'count')] = _count


def _set_add(ip, st, r, args, kw):
    def g(c, s):
        v = args[0]
        if isinstance(c, LV):
            for x in c.items:
                e = ip.compare('Eq', x, v, s) if not isinstance(x, Ten) and not isinstance(v, Ten) else (x == v)
                if e is True:
                    return None
            s.heap[(r.addr, 'c')] = LV(c.items + (v,))
            ip.wsite[(r.addr, 'c')] = ip.here()
            return None
        ip.imprecise('set of unknown contents')
    return content_apply(ip, r, st, g)


LMETH[('set', 'add')] = _set_add


def _set_update(ip, st, r, args, kw):
    for a in args:
        for v in ip.seq_items(a, st):
            _set_add(ip, st, r, [v], kw)


LMETH[('set', 'update')] = _set_update


def _set_discard(ip, st, l, a, kw):
    l[:] = [x for x in l if x != a[0]]


LMETH[('set', 'discard')] = setc(_set_discard)
LMETH[('set', 'remove')] = setc(_set_discard)
LMETH[('set', 'union')] = lambda ip, st, r, args, kw: ip.binop('BitOr', r, args[0], st)
LMETH[('set', 'intersection')] = lambda ip, st, r, args, kw: ip.binop('BitAnd', r, args[0], st)


def _sort(ip, st, l, args, kw):
    l[:] = sort_list(ip, st, l, kw)


LMETH[('list', 'sort')] = setc(_sort)


def sort_list(ip, st, l, kw):
    keys = [ip.call(kw['key'], [x], {}, st) if kw.get('key') is not None else x for x in l]
    if all(isinstance(k, R) and k.is_const() for k in keys):
        r = [x for _, _, x in sorted([(k.const(), j, x) for j, (k, x) in enumerate(zip(keys, l))], key=lambda t: t[:2])]
    elif all(isinstance(k, str) for k in keys):
        r = [x for _, _, x in sorted([(k, j, x) for j, (k, x) in enumerate(zip(keys, l))], key=lambda t: t[:2])]
    else:
        # sorting network on symbolic keys
        r = list(l)
        ks = [scalar(ip, k, st) for k in keys]
        mv = I().mergeval
        for i in range(len(r)):
            for j in range(len(r) - 1 - i):
                g = c_lt(ks[j + 1], ks[j])
                ks[j], ks[j + 1] = ite(g, ks[j + 1], ks[j]), ite(g, ks[j], ks[j + 1])
                r[j], r[j + 1] = mv(g, r[j + 1], r[j]), mv(g, r[j], r[j + 1])
    if kw.get('reverse') is True:
        r.reverse()
    return r


def dictm(f):
    def m(ip, st, r, args, kw):
        c = st.heap[(r.addr, 'c')]
        if not isinstance(c, DV):
            ip.imprecise('dictionary of unknown contents')
        return f(ip, st, r, c, args, kw)
    return m


LMETH[('dict', 'get')] = dictm(lambda ip, st, r, c, a, kw: c.get(a[0], a[1] if len(a) > 1 else None))
LMETH[('dict', 'keys')] = dictm(lambda ip, st, r, c, a, kw: TupV([k for k, _ in c.items]))
LMETH[('dict', 'values')] = dictm(lambda ip, st, r, c, a, kw: TupV([v for _, v in c.items]))
LMETH[('dict', 'items')] = dictm(lambda ip, st, r, c, a, kw: TupV([TupV(p) for p in c.items]))


@dictm
def _dpop(ip, st, r, c, a, kw):
    v = c.get(a[0], a[1] if len(a) > 1 else None)
    st.heap[(r.addr, 'c')] = DV([(k, x) for k, x in c.items if k != a[0]])
    return v


LMETH[('dict', 'pop')] = _dpop


@dictm
def _dupdate(ip, st, r, c, a, kw):
    if a:
        for k, v in st.heap[(a[0].addr, 'c')].items:
            c = c.set(k, v)
    for k, v in kw.items():
        c = c.set(k, v)
    st.heap[(r.addr, 'c')] = c


LMETH[('dict', 'update')] = _dupdate


@dictm
def _dsetdefault(ip, st, r, c, a, kw):
    v = c.get(a[0], UNDEF)
    if v is UNDEF:
        v = a[1] if len(a) > 1 else None
        st.heap[(r.addr, 'c')] = c.set(a[0], v)
    return v


LMETH[('dict', 'setdefault')] = _dsetdefault

# ================================================================= builtins
BFN = {}


def bf(*names):
    def deco(f):
        for n in names:
            BFN[n] = f
            BUILTINS[n] = Builtin(n)
        return f
    return deco


for _n in ('Exception', 'ValueError', 'RuntimeError', 'TypeError', 'NotImplementedError', 'AttributeError', 'KeyError',
           'IndexError', 'AssertionError', 'StopIteration', 'ImportError', 'ZeroDivisionError', 'ArithmeticError',
           'NotImplemented', 'OverflowError', 'UserWarning', 'DeprecationWarning', 'OSError', 'BaseException', 'KeyboardInterrupt'):
    BUILTINS[_n] = Ext('builtins.' + _n)
BUILTINS['object'] = Ext('builtins.object')


@bf('len')
def b_len(ip, st, args, kw):
    def f(x):
        if isinstance(x, Ref):
            return lift(lambda c: clen(ip, c), st.heap[(x.addr, 'c')])
        if isinstance(x, TupV):
            return R.c(len(x.items))
        if isinstance(x, Ten):
            if not x.shape:
                shape_error(ip, 'len() of a 0-d tensor')
            return R.c(x.shape[0])
        if isinstance(x, str):
            return R.c(len(x))
        if isinstance(x, SeqV):
            return x.n
        if isinstance(x, Opaque):
            return R.atom(nat(Atom('len', 'opaque', x.name)))
        if isinstance(x, Obj):
            m = ip.getattr(x, '__len__', st, None, True)
            if m is not None:
                return ip.call(m, [], {}, st)
        ip.imprecise('len of %r' % (x,))
    return lift(f, args[0])


def clen(ip, c):
    if isinstance(c, (LV, DV)):
        return R.c(len(c.items))
    if isinstance(c, SymL):
        return c.n
    if isinstance(c, PhiL):
        return R.atom(nat(Atom('len', 'phi', c.uid)))
    if isinstance(c, I().AppL):
        return add(clen(ip, c.base), R.c(len(c.items)))
    ip.imprecise('len of %r' % (c,))


@bf('range')
def b_range(ip, st, args, kw):
    a = [scalar(ip, x, st) for x in args]
    if any(isinstance(x, DD) for x in a):
        k = [j for j, x in enumerate(a) if isinstance(x, DD)][0]
        return lift(lambda l: mkrange(ip, a[:k] + [l] + a[k + 1:]), a[k])
    return mkrange(ip, a)


def mkrange(ip, a):
    if len(a) == 1:
        lo, hi, s = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, s = a[0], a[1], ONE
    else:
        lo, hi, s = a
    if s == ONE:
        n = sub(hi, lo)
    elif s == NEG1:
        n = sub(lo, hi)
    elif all(isinstance(x, R) and x.is_const() for x in (lo, hi, s)):
        n = R.c(len(range(int(lo.const()), int(hi.const()), int(s.const()))))
    else:
        ip.imprecise('range step')
    if n.is_const() and n.const() < 0:
        n = ZERO
    return SeqV(n, lambda k, st: add(lo, mul(k, s)), 'range')


def as_seq(ip, v, st):
    if isinstance(v, DD) and all(isinstance(l, (Ref, TupV)) for l in all_leaves(v)):
        return ip.seq_items(v, st)
    it = ip.items_of(v, st)
    if isinstance(it, DD):
        return ip.seq_items(v, st)
    return it


def seq_len(it):
    return it.n if isinstance(it, SeqV) else R.c(len(it))


def seq_get(ip, it, k, st):
    if isinstance(it, SeqV):
        return it.get(k, st)
    return it[ip.as_int(k)]


@bf('enumerate')
def b_enumerate(ip, st, args, kw):
    def f(v, st):
        it = as_seq(ip, v, st)
        s = arg(args, kw, 1, 'start', ZERO)
        if isinstance(it, SeqV) and not it.n.is_const():
            return SeqV(it.n, lambda k, st2: TupV([add(s, k), it.get(k, st2)]), 'enumerate')
        if isinstance(it, SeqV):
            it = ip.force_seq(it, st)
        return TupV([TupV([add(s, R.c(k)), x]) for k, x in enumerate(it)])
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[(v.addr, 'c')], DD):
        return lift(lambda c: TupV([TupV([R.c(k), x]) for k, x in enumerate(c.items)]), st.heap[(v.addr, 'c')])
    return ip.fork(v, st, f)


@bf('zip')
def b_zip(ip, st, args, kw):
    its = [as_seq(ip, a, st) for a in args]
    if not its:
        return TupV([])
    if any(isinstance(i, SeqV) and not i.n.is_const() for i in its):
        n = [seq_len(i) for i in its]
        m = n[0]
        for x in n[1:]:
            if x != m:
                if x.is_const() or m.is_const():
                    m = x if x.is_const() else m
                    continue
                # lengths n and n-1: the shorter one
                d = sub(x, m)
                if d.is_const():
                    m = x if d.const() < 0 else m
                else:
                    ip.imprecise('zip of lists of unknown lengths')
        return SeqV(m, lambda k, s: TupV([seq_get(ip, i, k, s) for i in its]), 'zip')
    its = [ip.force_seq(i, st) if isinstance(i, SeqV) else i for i in its]
    return TupV([TupV(x) for x in zip(*its)])


@bf('map')
def b_map(ip, st, args, kw):
    its = [as_seq(ip, a, st) for a in args[1:]]
    if any(isinstance(i, SeqV) and not i.n.is_const() for i in its):
        return SeqV(seq_len(its[0]), lambda k, s: ip.call(args[0], [seq_get(ip, i, k, s) for i in its], {}, s), 'map')
    its = [ip.force_seq(i, st) if isinstance(i, SeqV) else i for i in its]
    return TupV([ip.call(args[0], list(x), {}, st) for x in zip(*its)])


@bf('filter')
def b_filter(ip, st, args, kw):
    out = ip.new_list(st, [])
    for x in ip.seq_items(args[1], st):
        t = ip.truth(ip.call(args[0], [x], {}, st) if args[0] is not None else x, st)
        ip.branch(t, st, lambda s: list_append(ip, out, x, s), lambda s: None)
    return out


@bf('reversed')
def b_reversed(ip, st, args, kw):
    it = as_seq(ip, args[0], st)
    if isinstance(it, SeqV) and not it.n.is_const():
        return SeqV(it.n, lambda k, s: it.get(sub(sub(it.n, ONE), k), s), 'reversed')
    if isinstance(it, SeqV):
        it = ip.force_seq(it, st)
    return TupV(list(it)[::-1])


@bf('sorted')
def b_sorted(ip, st, args, kw):
    return ip.new_list(st, sort_list(ip, st, ip.seq_items(args[0], st), kw))


@bf('list')
def b_list(ip, st, args, kw):
    if not args:
        return ip.new_list(st, [])
    v = args[0]
    if isinstance(v, Ref) and v.kind != 'dict':
        a = ip.new()
        st.heap[(a, 'c')] = st.heap[(v.addr, 'c')]
        return Ref('list', a)
    it = as_seq(ip, v, st)
    if isinstance(it, SeqV) and not it.n.is_const():
        ip.uid += 1
        ix = nat(Atom('ix', ip.uid))
        return ip.sym_new(st, SymL(it.n, ix, it.get(R.atom(ix), st)))
    return ip.new_list(st, ip.seq_items(v, st))


@bf('tuple')
def b_tuple(ip, st, args, kw):
    if not args:
        return TupV([])
    if isinstance(args[0], TupV):
        return args[0]
    it = as_seq(ip, args[0], st)
    if isinstance(it, SeqV) and not it.n.is_const():
        return b_list(ip, st, args, kw)
    return TupV(ip.seq_items(args[0], st))


@bf('set', 'frozenset')
def b_set(ip, st, args, kw):
    if args and isinstance(args[0], Ref):
        c = st.heap[(args[0].addr, 'c')]
        if not isinstance(c, LV):
            a = ip.new()
            st.heap[(a, 'c')] = c
            return Ref('set', a)
    items = []
    for x in (ip.seq_items(args[0], st) if args else []):
        if x not in items:
            items.append(x)
    r = ip.new_list(st, items)
    return Ref('set', r.addr)


@bf('dict')
def b_dict(ip, st, args, kw):
    d = DV(())
    if args:
        if isinstance(args[0], Ref) and args[0].kind == 'dict':
            d = st.heap[(args[0].addr, 'c')]
        else:
            for p in ip.seq_items(args[0], st):
                k, v = ip.seq_items(p, st)
                d = d.set(k, v)
    for k, v in kw.items():
        d = d.set(k, v)
    a = ip.new()
    st.heap[(a, 'c')] = d
    return Ref('dict', a)


@bf('iter')
def b_iter(ip, st, args, kw):
    return args[0]


@bf('next')
def b_next(ip, st, args, kw):
    it = args[0]
    c = st.heap[(it.addr, 'c')] if isinstance(it, Ref) else LV(ip.seq_items(it, st))
    dflt = args[1] if len(args) > 1 else UNDEF

    def f(l):
        if isinstance(l, LV):
            return l.items[0] if l.items else dflt
        ip.imprecise('next()')
    return lift(f, c) if not isinstance(c, DD) else ip.lift_any(f, c)


@bf('sum')
def b_sum(ip, st, args, kw):
    start = arg(args, kw, 1, 'start', ZERO)

    def go(v, s):
        it = ip.items_of(v, s)
        if isinstance(it, DD):
            return ip.fork(it, s, lambda l, s2: tot(list(l.items), s2))
        if isinstance(it, SeqV) and it.n.is_const():
            it = ip.force_seq(it, s)
        if isinstance(it, SeqV):
            ip.uid += 1
            ix = nat(Atom('ix', ip.uid))
            b = it.get(R.atom(ix), s)
            a = rd(ip, b, s)
            e = [add(scalar(ip, start, s), sum_over(ix, it.n, num_(x))) for x in a.e]
            return mk(ip, s, a.shape, e, a.dt) if a.ten else e[0]
        return tot(it, s)

    def tot(items, s):
        acc = start
        for x in items:
            acc = ip.binop('Add', acc, x, s)
        return acc
    return ip.fork(args[0], st, go)


def _mm(which):
    def f(ip, st, args, kw):
        if len(args) == 1:
            it = as_seq(ip, args[0], st)
            if isinstance(it, SeqV) and not it.n.is_const():
                return sym_extreme(ip, st, it, which, kw)
            xs = ip.seq_items(args[0], st)
        else:
            xs = list(args)
        key = kw.get('key')
        if not xs:
            if 'default' in kw:
                return kw['default']
            ip.imprecise('%s of an empty sequence' % which)
        best = xs[0]
        kb = ip.call(key, [best], {}, st) if key is not None else best
        for x in xs[1:]:
            kx = ip.call(key, [x], {}, st) if key is not None else x
            g = ip.truth(ip.compare('Gt' if which == 'max' else 'Lt', kx, kb, st), st)
            best = I().mergeval(g, x, best)
            kb = I().mergeval(g, kx, kb)
        return best
    return f


def sym_extreme(ip, st, it, which, kw):
    """max/min over a sequence of unknown length: a selected index."""
    ip.uid += 1
    ix = nat(Atom('ix', ip.uid))
    el = it.get(R.atom(ix), st)
    k = ip.call(kw['key'], [el], {}, st) if kw.get('key') is not None else el
    if isinstance(k, TupV):
        k = k.items[0]
    k = undet(scalar(ip, k, st))
    _, (kc,) = close(ix, it.n, k)
    g = c_lt(R.atom(Atom('prev', kc, 'none')), kc) if which == 'max' else c_lt(kc, R.atom(Atom('prev', kc, 'none')))
    sel = nat(Atom('sel', it.n, g))
    return it.get(R.atom(sel), st)


bf('max')(_mm('max'))
bf('min')(_mm('min'))


@bf('abs')
def b_abs(ip, st, args, kw):
    return lift_num(ip, st, mk_abs, args[0])


def lift_num(ip, st, f, v):
    if any(isinstance(l, Ten) for l in all_leaves(v)):
        return ewise(ip, st, lambda x: f(num_(x)), v)
    return lift(lambda x: x if isinstance(x, Opaque) else f(num_(x)), v)


def _quant(which):
    def f(ip, st, args, kw):
        def go(v, s):
            it = ip.items_of(v, s)
            if isinstance(it, DD):
                return ip.fork(it, s, lambda l, s2: fin([ip.truth(x, s2) for x in l.items]))
            if isinstance(it, SeqV) and it.n.is_const():
                it = ip.force_seq(it, s)
            if isinstance(it, SeqV):
                ip.uid += 1
                ix = nat(Atom('ix', ip.uid))
                b = ip.truth(it.get(R.atom(ix), s), s)
                if which == 'all':
                    b = b_not(b)
                if isinstance(b, bool):
                    e = b_and(b, c_lt(ZERO, it.n))
                else:
                    _, (c,) = close(ix, it.n, b)
                    e = b_atom(Atom('exists', it.n, c))
                return b_not(e) if which == 'all' else e
            return fin([ip.truth(x, s) for x in it])

        def fin(xs):
            g = which == 'all'
            for x in xs:
                g = b_and(g, x) if which == 'all' else b_or(g, x)
            return g
        return ip.fork(args[0], st, go)
    return f


bf('all')(_quant('all'))
bf('any')(_quant('any'))


TYPES = {'float': lambda v: isinstance(v, R) and ktype(v) != 'int', 'int': lambda v: isinstance(v, bool) or isinstance(v, R) and ktype(v) != 'float',
         'bool': lambda v: isinstance(v, bool), 'str': lambda v: isinstance(v, str),
         'list': lambda v: isinstance(v, Ref) and v.kind == 'list', 'tuple': lambda v: isinstance(v, TupV),
         'dict': lambda v: isinstance(v, Ref) and v.kind == 'dict', 'set': lambda v: isinstance(v, Ref) and v.kind == 'set'}


def ktype(r):
    if r.is_const():
        return 'any' if r.const().denominator == 1 else 'float'
    return 'float' if not all(a in NAT for a in r.atoms()) else 'int'


@bf('isinstance')
def b_isinstance(ip, st, args, kw):
    ts = args[1].items if isinstance(args[1], TupV) else [args[1]]

    def one(v, t):
        if isinstance(t, ClassV):
            return isinstance(v, Obj) and v.cls is not None and t in v.cls.mro()
        if isinstance(t, Builtin):
            return t.name in TYPES and TYPES[t.name](v)
        if isinstance(t, Ext):
            if t.path in ('torch.Tensor', 'torch.autograd.Variable'):
                return isinstance(v, Ten)
            if t.path in ('numbers.Number', 'numbers.Real'):
                return isinstance(v, (R, bool))
            if t.path in ('collections.abc.Sequence', 'collections.abc.Iterable', 'collections.Iterable', 'typing.Sequence'):
                return isinstance(v, (TupV, Ref))
            if isinstance(v, Obj) and v.cls:
                return t.path in v.cls.ext_bases()
            if t.path == 'builtins.object':
                return True
            if isinstance(v, Opaque):
                return b_atom(Atom('opq', ('isinstance', v.name, t.path)))
            return False
        return False

    def f(v):
        g = False
        for t in ts:
            g = b_or(g, one(v, t))
        return g
    return lift(f, args[0])


@bf('issubclass')
def b_issubclass(ip, st, args, kw):
    return isinstance(args[0], ClassV) and args[1] in args[0].mro()


@bf('hasattr')
def b_hasattr(ip, st, args, kw):
    def f(o, s):
        if isinstance(o, Obj):
            v = s.heap.get((o.addr, args[1]), UNDEF)
            if v is not UNDEF:
                if isinstance(v, DD) and any(l is UNDEF for l in all_leaves(v)):
                    ip.imprecise('hasattr on a conditional attribute')
                return True
            return bool(o.cls and ip.class_attr(o.cls, args[1], s)) or obj_attr(ip, o, args[1], s) is not None
        if isinstance(o, Ten):
            return ten_attr(ip, o, args[1], s) is not UNDEF
        if isinstance(o, ClassV):
            return ip.class_attr(o, args[1], s) is not None
        if isinstance(o, ModuleV):
            return (o.frame, args[1]) in s.heap
        if isinstance(o, Opaque):
            return b_atom(Atom('opq', ('hasattr', o.name, args[1])))
        if isinstance(o, TupV):
            return args[1] in ('__len__', '__iter__', '__getitem__')
        if isinstance(o, Ref):
            return args[1] in ('__len__', '__iter__', '__getitem__') or (o.kind, args[1]) in LMETH
        return False
    return ip.fork(args[0], st, f)


@bf('getattr')
def b_getattr(ip, st, args, kw):
    if not isinstance(args[1], str):
        ip.imprecise('getattr with an unknown name')
    if len(args) > 2:
        return ip.getattr(args[0], args[1], st, args[2], True)
    return ip.getattr(args[0], args[1], st)


@bf('setattr')
def b_setattr(ip, st, args, kw):
    if not isinstance(args[1], str):
        ip.imprecise('setattr with an unknown name')
    ip.setattr(args[0], args[1], args[2], st)


@bf('type')
def b_type(ip, st, args, kw):
    def f(v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Ten):
            return Ext('torch.Tensor')
        if isinstance(v, Ref):
            return Builtin(v.kind)
        if isinstance(v, TupV):
            return Builtin('tuple')
        if isinstance(v, str):
            return Builtin('str')
        if isinstance(v, bool):
            return Builtin('bool')
        if isinstance(v, R):
            return Builtin('int' if ktype(v) == 'int' else 'float')
        return Opaque(('type', repr(v)))
    return lift(f, args[0])


@bf('callable')
def b_callable(ip, st, args, kw):
    return lift(lambda v: isinstance(v, (Func, Bound, ClassV, Builtin, Ext, I().PyFn)), args[0])


@bf('float')
def b_float(ip, st, args, kw):
    if not args:
        return ZERO
    v = args[0]
    if isinstance(v, str):
        return R.atom(Atom('sym', v.strip('+'))) if v.strip('+-') in ('inf', 'nan') else R.c(float(v))
    if isinstance(v, Opaque):
        return R.atom(Atom('opqv', v.name))
    if any(isinstance(l, Ten) for l in all_leaves(v)):
        return detx(num_(elems(ip, v, st)[0]))
    return num_(v)


@bf('int', 'round')
def b_int(ip, st, args, kw):
    if not args:
        return ZERO
    v = args[0]
    if isinstance(v, Opaque):
        return R.atom(Atom('opqv', ('int', v.name)))
    if isinstance(v, str):
        return R.c(int(v))
    if any(isinstance(l, Ten) for l in all_leaves(v)):
        v = detx(elems(ip, v, st)[0])

    def f(x):
        x = num_(x)
        if x.is_const():
            return R.c(int(x.const()))
        if all(a in NAT for a in x.atoms()) and x.den == P1 and all(c.denominator == 1 for c in x.num.t.values()):
            return x
        return R.atom(Atom('int', x))
    return lift(f, v)


@bf('bool')
def b_bool(ip, st, args, kw):
    return ip.truth(args[0], st) if args else False


@bf('str', 'repr', 'format', 'ascii')
def b_str(ip, st, args, kw):
    if args and isinstance(args[0], str):
        return args[0]
    if args and isinstance(args[0], R) and args[0].is_const() and args[0].const().denominator == 1:
        return str(int(args[0].const()))
    return Opaque(('str',) + tuple(I().keyname(a, st) for a in args))


@bf('print')
def b_print(ip, st, args, kw):
    return None


@bf('id', 'hash')
def b_id(ip, st, args, kw):
    return R.atom(Atom('opqv', ('id', repr(args[0]))))


@bf('super')
def b_super(ip, st, args, kw):
    return SuperV(args[0], args[1])


@bf('property', 'staticmethod', 'classmethod')
def b_prop(ip, st, args, kw):
    return args[0]


@bf('divmod')
def b_divmod(ip, st, args, kw):
    return TupV([ip.binop('FloorDiv', args[0], args[1], st), ip.binop('Mod', args[0], args[1], st)])


@bf('pow')
def b_pow(ip, st, args, kw):
    return ip.binop('Pow', args[0], args[1], st)


@bf('slice')
def b_slice(ip, st, args, kw):
    a = list(args)
    if len(a) == 1:
        a = [None, a[0], None]
    return SliceV(*(a + [None])[:3])


@bf('open', 'input', 'exit', 'chr', 'ord', 'vars', 'dir', '__import__')
def b_opaque(ip, st, args, kw):
    return Opaque(('io', tuple(I().keyname(a, st) for a in args)))


BUILTINS['__name__'] = '__sa__'
BUILTINS['Ellipsis'] = ELLIPSIS

# ================================================================= math and friends
CONSTANTS['math.pi'] = R.atom(PI)
CONSTANTS['math.inf'] = R.atom(Atom('sym', 'inf'))
CONSTANTS['math.e'] = R.atom(Atom('sym', 'e'))
CONSTANTS['numpy.pi'] = R.atom(PI)


def mfn(name, f):
    def g(ip, st, args, kw):
        vs = []
        for a in args:
            a = scalar(ip, a, st) if not isinstance(a, Opaque) else R.atom(Atom('opqv', a.name))
            if any(isinstance(l, Ten) for l in all_leaves(args[0])):
                a = detx(a)
            vs.append(num_(a))
        return f(*vs)
    EXT['math.' + name] = g


for _n, _f in {'sin': mk_sin, 'cos': mk_cos, 'sqrt': sqrt, 'fabs': mk_abs, 'atan2': mk_atan2,
               'hypot': lambda *x: norm2(x), 'fsum': None, 'pow': lambda x, y: lift(lambda p, q: I().arith(None, 'Pow', p, q), x, y),
               'radians': lambda x: div(mul(x, R.atom(PI)), R.c(180))}.items():
    if _f is not None:
        mfn(_n, _f)
for _n in ('exp', 'log', 'tan', 'floor', 'ceil', 'acos', 'asin', 'atan', 'log10', 'degrees', 'trunc'):
    mfn(_n, lambda x, n=_n: lift(lambda y: R.c(y.const().__floor__()) if n in ('floor', 'trunc') and y.is_const() else
        R.c(y.const().__ceil__()) if n == 'ceil' and y.is_const() else R.atom(Atom(n, y)), x))
mfn('isclose', lambda x, y: c_eq(x, y))
mfn('copysign', lambda x, y: ite(c_lt(y, ZERO), neg(mk_abs(x)), mk_abs(x)))


@ext('math.fsum')
def f_fsum(ip, st, args, kw):
    return BFN['sum'](ip, st, args, kw)


@ext('functools.reduce')
def f_reduce(ip, st, args, kw):
    xs = ip.seq_items(args[1], st)
    acc = args[2] if len(args) > 2 else xs.pop(0)
    for x in xs:
        acc = ip.call(args[0], [acc, x], {}, st)
    return acc


@ext('functools.partial')
def f_partial(ip, st, args, kw):
    f, a0, k0 = args[0], list(args[1:]), dict(kw)
    return I().PyFn(lambda ip2, s, a, k: ip2.call(f, a0 + list(a), {**k0, **k}, s), 'partial')


@ext('functools.lru_cache', 'functools.cache', 'functools.wraps', 'functools.cached_property')
def f_lru(ip, st, args, kw):
    if len(args) == 1 and isinstance(args[0], Func):
        ip.cached_funcs.append(args[0])
        return args[0]
    return I().PyFn(lambda ip2, s, a, k: (ip2.cached_funcs.append(a[0]), a[0])[1], 'lru_cache')


@ext('contextlib.contextmanager')
def f_contextmanager(ip, st, args, kw):
    f = args[0]
    if not isinstance(f, Func):
        ip.imprecise('context manager of %r' % (f,))
    f.ctx = True
    return f


@ext('collections.namedtuple')
def f_namedtuple(ip, st, args, kw):
    name, fields = args[0], args[1] if len(args) > 1 else kw['field_names']
    fields = fields.replace(',', ' ').split() if isinstance(fields, str) else list(ip.seq_items(fields, st))
    dfl = ip.seq_items(kw['defaults'], st) if kw.get('defaults') is not None else []
    return ip.record(name, fields, dict(zip(fields[len(fields) - len(dfl):], dfl)))


@ext('dataclasses.dataclass')
def f_dataclass(ip, st, args, kw):
    return args[0] if args else I().PyFn(lambda ip2, s, a, k: a[0], 'dataclass')


for _n, _o in {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'matmul': 'MatMult', 'mod': 'Mod'}.items():
    EXT['operator.' + _n] = lambda ip, st, args, kw, o=_o: ip.binop(o, args[0], args[1], st)
EXT['operator.neg'] = lambda ip, st, args, kw: t_unary(ip, 'USub', args[0], st)


@ext('operator.itemgetter')
def f_itemgetter(ip, st, args, kw):
    return I().PyFn(lambda ip2, s, a, k: ip2.getitem(a[0], args[0], s), 'itemgetter')


@ext('operator.attrgetter')
def f_attrgetter(ip, st, args, kw):
    return I().PyFn(lambda ip2, s, a, k: ip2.getattr(a[0], args[0], s), 'attrgetter')


@ext('itertools.chain')
def f_chain(ip, st, args, kw):
    out = ip.new_list(st, [])
    for a in args:
        list_extend(ip, out, a, st)
    return out


@ext('itertools.chain.from_iterable')
def f_chain2(ip, st, args, kw):
    return f_chain(ip, st, ip.seq_items(args[0], st), kw)


@ext('itertools.product')
def f_product(ip, st, args, kw):
    return TupV([TupV(x) for x in product(*[ip.seq_items(a, st) for a in args])])


@ext('itertools.accumulate')
def f_accumulate(ip, st, args, kw):
    out, acc = [], None
    for x in ip.seq_items(args[0], st):
        acc = x if acc is None else ip.binop('Add', acc, x, st)
        out.append(acc)
    return TupV(out)


@ext('itertools.count')
def f_count(ip, st, args, kw):
    s = args[0] if args else ZERO
    return SeqV(R.atom(nat(Atom('len', 'count'))), lambda k, st2: add(s, k), 'count')


@ext('copy.copy', 'copy.deepcopy')
def f_copy(ip, st, args, kw):
    deep = 1
    memo = {}

    def go(v):
        if isinstance(v, Ten):
            return mk(ip, st, v.shape, read(v, st), v.dt)
        if isinstance(v, Ref):
            if v.addr in memo:
                return memo[v.addr]
            a = ip.new()
            memo[v.addr] = Ref(v.kind, a)
            c = st.heap[(v.addr, 'c')]
            st.heap[(a, 'c')] = LV([go(x) for x in c.items]) if isinstance(c, LV) else \
                DV([(k, go(x)) for k, x in c.items]) if isinstance(c, DV) else c
            return memo[v.addr]
        if isinstance(v, TupV):
            return TupV([go(x) for x in v.items])
        if isinstance(v, Obj):
            if v.addr in memo:
                return memo[v.addr]
            o = Obj(ip.new(), v.cls)
            memo[v.addr] = o
            for k in [k for k in st.heap if k[0] == v.addr]:
                st.heap[(o.addr, k[1])] = go(st.heap[k])
            return o
        if isinstance(v, DD):
            return lift(go, v)
        return v
    return go(args[0])


# nondeterministic choice: an arbitrary element
@ext('random.choice')
def f_choice(ip, st, args, kw):
    v = args[0]
    it = as_seq(ip, v, st)
    k = nat(Atom('sym', 'choice%d' % 0))
    if isinstance(it, SeqV):
        return it.get(R.atom(k), st)
    out = it[-1]
    for j, x in reversed(list(enumerate(it[:-1]))):
        out = I().mergeval(c_eq(R.atom(k), R.c(j)), x, out)
    return out


for _n in ('random.random', 'random.uniform', 'random.randint', 'time.time', 'time.perf_counter', 'time.monotonic'):
    def _rnd(ip, st, args, kw, n=_n):
        ip.uid += 1
        return R.atom(Atom('sym', n, ip.uid))
    EXT[_n] = _rnd
for _n in ('time.sleep', 'warnings.warn', 'warnings.filterwarnings', 'os.makedirs', 'gc.collect'):
    EXT[_n] = lambda ip, st, args, kw: None


@ext('os.path.join')
def f_join(ip, st, args, kw):
    if all(isinstance(a, str) for a in args):
        import os
        return os.path.join(*args)
    return Opaque(('path', tuple(I().keyname(a, st) for a in args)))


# ================================================================= ode
def ext_class(name):
    return ClassV(name, [], None, None, -hash(name) % (10 ** 9) - 10 ** 10)


GEOM = ext_class('ode.Geom')
SPACE = ext_class('ode.Space')


def triple(ip, st, v):
    a = from_nested(ip, v, st)
    return TupV([num_(x) for x in a.e])


def _geom(kind):
    def f(ip, st, args, kw):
        o = Obj(ip.new(), GEOM)
        sp = args[0] if args else kw.get('space')
        st.heap[(o.addr, '%kind')] = kind
        v = arg(args, kw, 1, 'radius', kw.get('lengths'))
        if kind == 'sphere':
            st.heap[(o.addr, '%radius')] = detx(num_(scalar(ip, v, st))) if v is not None else ONE
        else:
            st.heap[(o.addr, '%lengths')] = triple(ip, st, v)
        st.heap[(o.addr, '%pos')] = TupV([ZERO] * 3)
        st.heap[(o.addr, '%quat')] = TupV([ONE, ZERO, ZERO, ZERO])
        if isinstance(sp, Obj):
            OBJM[('ode.Space', 'add')](ip, st, sp, [o], {})
        return o
    return f


EXT['ode.GeomSphere'] = _geom('sphere')
EXT['ode.GeomBox'] = _geom('box')


def _setpos(ip, st, o, args, kw):
    st.heap[(o.addr, '%pos')] = triple(ip, st, args[0])
    ip.wsite[(o.addr, '%pos')] = ip.here()


def _setquat(ip, st, o, args, kw):
    st.heap[(o.addr, '%quat')] = triple(ip, st, args[0])
    ip.wsite[(o.addr, '%quat')] = ip.here()


OBJM[('ode.Geom', 'setPosition')] = _setpos
OBJM[('ode.Geom', 'setQuaternion')] = _setquat
OBJM[('ode.Geom', 'getPosition')] = lambda ip, st, o, args, kw: st.heap[(o.addr, '%pos')]
OBJM[('ode.Geom', 'getQuaternion')] = lambda ip, st, o, args, kw: st.heap[(o.addr, '%quat')]
OBJM[('ode.Geom', 'getRadius')] = lambda ip, st, o, args, kw: st.heap[(o.addr, '%radius')]
OBJM[('ode.Geom', 'getLengths')] = lambda ip, st, o, args, kw: st.heap[(o.addr, '%lengths')]
OBJM[('ode.Geom', 'setRadius')] = lambda ip, st, o, args, kw: st.heap.__setitem__((o.addr, '%radius'), num_(scalar(ip, args[0], st)))
OBJM[('ode.Geom', 'setLengths')] = lambda ip, st, o, args, kw: st.heap.__setitem__((o.addr, '%lengths'), triple(ip, st, args[0]))


def _space(ip, st, args, kw):
    o = Obj(ip.new(), SPACE)
    st.heap[(o.addr, '%geoms')] = LV([])
    return o


for _n in ('HashSpace', 'SimpleSpace', 'Space', 'QuadTreeSpace'):
    EXT['ode.' + _n] = _space


def _space_add(ip, st, o, args, kw):
    c = st.heap[(o.addr, '%geoms')]
    st.heap[(o.addr, '%geoms')] = lift(lambda l: LV(l.items + (args[0],)), c)
    return None


OBJM[('ode.Space', 'add')] = _space_add


def _space_remove(ip, st, o, args, kw):
    c = st.heap[(o.addr, '%geoms')]
    st.heap[(o.addr, '%geoms')] = lift(lambda l: LV([x for x in l.items if x != args[0]]), c)
    return None


OBJM[('ode.Space', 'remove')] = _space_remove


def _space_collide(ip, st, o, args, kw):
    h = ip.collide_hook
    if h is None:
        ip.imprecise('space.collide')
    return h(ip, st, o, args, kw)


OBJM[('ode.Space', 'collide')] = _space_collide


CONTACT = ext_class('ode.Contact')


@ext('ode.collide')
def f_collide(ip, st, args, kw):
    if ip.hits_hook is None:
        ip.imprecise('ode.collide')
    out = []
    for h in ip.hits_hook(ip, st, args[0], args[1]):
        o = Obj(ip.new(), CONTACT)
        st.heap[(o.addr, '%params')] = TupV(h)
        out.append(o)
    return ip.new_list(st, out)


OBJM[('ode.Contact', 'getContactGeomParams')] = lambda ip, st, o, args, kw: st.heap[(o.addr, '%params')]
