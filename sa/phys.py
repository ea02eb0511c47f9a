"""Symbolic worlds: abstract bodies, joints and worlds built by analysing the package's own
constructors on symbolic arguments."""
from .terms import *
from .terms import UNDEF, Imprecise, undet, leaves, map_atoms, all_atoms
from .values import *
from .interp import Interp, all_leaves, first_leaf, PyFn, Raised
from . import lib
from .report import REPO

PKG = 'lcp_physics'


def S(*n):
    return sym(*n)


def RR(v):
    """number / R -> R"""
    return v if isinstance(v, (R, DD)) else R.c(v)


class W:
    """One analysis session."""

    def __init__(self, check=None, mod='lcp_physics.physics'):
        self.ip = Interp(REPO)
        self.st = State()
        self.check = check
        if check is not None:
            check.sessions.append(self)
        self.mod = self.ip.load(mod, self.st)
        self.pkg = self.ip.modules.get('lcp_physics.physics')
        self.ip.collide_hook = lambda ip, st, o, args, kw: None      # no candidate pairs

    # ------------------------------------------------------------ symbols
    def ten(self, shape, elems, dt='B'):
        return lib.mk(self.ip, self.st, shape, [RR(e) for e in elems], dt)

    def vec(self, name, n, dt='B'):
        return self.ten((n,), [S(name, k) for k in range(n)], dt)

    def sc(self, name, dt='B'):
        return self.ten((), [S(name)], dt)

    def lst(self, items):
        return self.ip.new_list(self.st, items)

    # ------------------------------------------------------------ access
    def modv(self, name):
        return self.ip.load(name, self.st)

    def get(self, modname, name):
        m = self.modv(modname)
        if m is None or (m.frame, name) not in self.st.heap:
            raise Imprecise('%s.%s does not exist' % (modname, name))
        return self.st.heap[(m.frame, name)]

    def cls(self, name):
        for m in ('bodies', 'constraints', 'forces', 'world', 'contacts', 'engines', 'utils'):
            mv = self.modv('lcp_physics.physics.' + m)
            v = self.st.heap.get((mv.frame, name)) if mv is not None else None
            if isinstance(v, (ClassV, Func)):
                return v
        raise Imprecise('class %s not found in the physics package' % name)

    def new(self, cls, *args, **kw):
        c = self.cls(cls) if isinstance(cls, str) else cls
        r = self.ip.call(c, list(args), kw, self.st)
        if self.st.dead:
            raise AbsRaise()
        return r

    def attr(self, o, name, st=None):
        return self.ip.getattr(o, name, st or self.st)

    def setattr(self, o, name, v, st=None):
        self.ip.setattr(o, name, v, st or self.st)

    def call(self, o, meth, *args, st=None, **kw):
        st = st or self.st
        f = self.ip.getattr(o, meth, st)
        return self.ip.call(f, list(args), kw, st)

    def fn(self, mod, name, *args, st=None, **kw):
        return self.ip.call(self.get(mod, name), list(args), kw, st or self.st)

    def vals(self, v, st=None):
        """flat elements (graph marks removed)"""
        return [undet(x) if not isinstance(x, bool) else x for x in lib.elems(self.ip, v, st or self.st)]

    def raw(self, v, st=None):
        return lib.elems(self.ip, v, st or self.st)

    def shape(self, v, st=None):
        a = lib.rd(self.ip, v, st or self.st)
        if a is None:
            raise Imprecise('value of varying shape')
        return a.shape

    def dt(self, v, st=None):
        a = lib.rd(self.ip, v, st or self.st)
        return a.dt

    def items(self, ref, st=None):
        return self.ip.seq_items(ref, st or self.st)

    def done(self):
        if self.check is not None:
            self.check.analysed |= {q for q in self.ip.called}

    # ------------------------------------------------------------ bodies
    def params(self, n, tensors=True):
        kw = dict(mass=self.sc(n + '.m'), restitution=self.sc(n + '.e'), fric_coeff=self.sc(n + '.mu'),
                  eps=self.sc(n + '.eps'))
        return kw

    def circle(self, n, pos3=True, **over):
        kw = self.params(n)
        kw['vel'] = self.vec(n + '.v', 3)
        kw.update(over)
        pos = self.vec(n + '.p', 3 if pos3 else 2)
        return self.new('Circle', pos, self.sc(n + '.r'), **kw)

    def rect(self, n, pos3=True, **over):
        kw = self.params(n)
        kw['vel'] = self.vec(n + '.v', 3)
        kw.update(over)
        pos = self.vec(n + '.p', 3 if pos3 else 2)
        return self.new('Rect', pos, self.vec(n + '.d', 2), **kw)

    def hull(self, n, k=3, **over):
        kw = self.params(n)
        kw['vel'] = self.vec(n + '.v', 3)
        kw.update(over)
        verts = self.lst([self.vec(n + '.u%d' % i, 2) for i in range(k)])
        return self.new('Hull', self.vec(n + '.ref', 2), verts, **kw)

    def body(self, kind, n, **over):
        if kind == 'Circle':
            return self.circle(n, **over)
        if kind == 'Rect':
            return self.rect(n, **over)
        return self.hull(n, **over)

    def abs_body(self, kind, n, k=3):
        """A body of the class in an arbitrary reachable state: constructor-built, then pose,
        velocity and vertices replaced by free symbols."""
        b = self.body(kind, n)
        p = self.vec(n + '.P', 3)
        self.setattr(b, 'v', self.vec(n + '.V', 3))
        return b


def same(a, b):
    """Equality of symbolic numbers (diagrams compared pointwise)."""
    if a is b:
        return True
    try:
        return lift(lambda x, y: num_req(x, y), a, b) is True
    except Imprecise:
        return False


def num_req(x, y):
    x = ONE if x is True else ZERO if x is False else x
    y = ONE if y is True else ZERO if y is False else y
    if not isinstance(x, R) or not isinstance(y, R):
        return x == y
    return req(x, y)


def same_list(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def rot2(th, v):
    """R(th) v"""
    s, c = lift(mk_sin, th), mk_cos(th)
    return [sub(mul(c, v[0]), mul(s, v[1])), add(mul(s, v[0]), mul(c, v[1]))]


def cross(a, b):
    return sub(mul(a[0], b[1]), mul(a[1], b[0]))


def dot(a, b):
    out = ZERO
    for x, y in zip(a, b):
        out = add(out, mul(x, y))
    return out


def vadd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def vsub(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def vscale(k, a):
    return [mul(RR(k), x) for x in a]


def syms(name, n):
    return [S(name, k) for k in range(n)]


# ------------------------------------------------------------ pathwise equality
def lin_solve(r):
    """r == 0 -> (atom, R) with an atom expressed by the rest, or None."""
    if r.den != P1:
        r = R(r.num, P1, True)
    cands = []
    for m, c in r.num.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = Atom.by_id[m[0][0]]
            if all(m2 == m or all(k != a.id for k, _ in m2) for m2 in r.num.t) and \
               not any(a in all_atoms(Atom.by_id[k]) for m2 in r.num.t if m2 != m for k, _ in m2):
                cands.append((a, m, c))
    if not cands:
        return None
    a, m, c = cands[-1]
    rest = Poly({m2: -v / c for m2, v in r.num.t.items() if m2 != m})
    return a, R(rest, P1, True)


def eqsub(facts):
    """Substitution implied by the equalities known on a path."""
    out = {}
    for c, v in facts.truth.items():
        if v and c.tag == 'eq0':
            s = lin_solve(subst(c.args[0], out) if out else c.args[0])
            if s:
                a, r = s
                out = {k: subst(x, {a: r}) for k, x in out.items()}
                out[a] = r
    return out


def zero_monos(f):
    """Products known to be zero on a path."""
    out = []
    for c, v in f.truth.items():
        if v and c.tag == 'eq0':
            r = c.args[0]
            if len(r.num.t) == 1:
                (m, _), = r.num.t.items()
                if len(m) > 1:
                    out.append(m)
    return out


def zero_out(v, zs):
    if not zs or not isinstance(v, R):
        return v

    def divides(z, m):
        d = dict(m)
        return all(d.get(k, 0) >= e for k, e in z)

    def fn(a):
        if a.tag in ('sin', 'cos') and len(a.args[0].num.t) == 1 and a.args[0].den == P1:
            (m, _), = a.args[0].num.t.items()
            if any(divides(z, m) for z in zs):
                return ZERO if a.tag == 'sin' else ONE
        return None
    v = map_atoms(v, fn)
    num = Poly({m: c for m, c in v.num.t.items() if not any(divides(z, m) for z in zs)})
    return R(num, v.den)


def paths(*vs, given=True):
    """(facts, leaves) of the joint diagram, restricted to `given`."""
    v = lift(lambda *xs: TupV(xs), *vs)
    if given is not True:
        v = ite(given, v, UNDEF)
    for f, l in leaves(v):
        if l is not UNDEF:
            yield f, l.items


def path_eq(xs, ys, given=True):
    """None if equal on every path, else (condition text, expected, found)."""
    if len(xs) != len(ys):
        return 'size', len(ys), len(xs)
    for k, (x, y) in enumerate(zip(xs, ys)):
        if x is y:
            continue
        for f, (a, b) in paths(x, y, given=given):
            a = ONE if a is True else ZERO if a is False else a
            b = ONE if b is True else ZERO if b is False else b
            if isinstance(a, R) and isinstance(b, R):
                if req(a, b):
                    continue
                m = eqsub(f)
                z = zero_monos(f)
                if m or z:
                    a2, b2 = zero_out(subst(a, m), z), zero_out(subst(b, m), z)
                    if isinstance(a2, R) and isinstance(b2, R) and req(a2, b2):
                        continue
            elif a == b:
                continue
            return 'component %d%s' % (k, facts_text(f)), b, a
    return None


def facts_text(f):
    if not f.truth:
        return ''
    return ' when ' + ' and '.join(('' if v else 'not ') + repr(c) for c, v in list(f.truth.items())[:6])


# ------------------------------------------------------------ numeric side conditions
def numeval(v, env):
    """Value of a number at a sample point of the parameter space (only used to pick the
    branch / sign that is in force in a neighbourhood; identities are still decided exactly)."""
    import math as m

    def atom(a):
        if a in env:
            return env[a]
        t = a.tag
        if t == 'det':
            return atom(a.args[0])
        if t == 'sqrt':
            return m.sqrt(go(a.args[0]))
        if t == 'abs':
            return abs(go(a.args[0]))
        if t == 'sin':
            return m.sin(go(a.args[0]))
        if t == 'cos':
            return m.cos(go(a.args[0]))
        if t == 'atan2':
            return m.atan2(go(a.args[0]), go(a.args[1]))
        if a is PI:
            return m.pi
        raise Imprecise('no sample value for %r' % (a,))

    def poly(p):
        s = 0
        for mo, c in p.t.items():
            x = c
            for k, e in mo:
                x = x * atom(Atom.by_id[k]) ** e
            s += x
        return s

    def go(r):
        if isinstance(r, DD):
            return go(r.hi if cond(r.c) else r.lo)
        if r is True or r is False:
            return r
        return poly(r.num) / poly(r.den)

    def cond(c):
        if c.tag == 'lt0':
            return go(c.args[0]) < 0
        if c.tag == 'eq0':
            return abs(go(c.args[0])) < 1e-12
        raise Imprecise('no sample value for %r' % (c,))
    return go(v)


def resolve(v, env):
    """The branch of v and the signs of its absolute values in force at a sample point."""
    def go(x):
        if isinstance(x, DD):
            b = numeval(DD(x.c, ONE, ZERO), env)
            return go(x.hi if b == 1 else x.lo)
        if isinstance(x, bool):
            return x
        return map_atoms(x, lambda a: None if a.tag != 'abs' else
                         (go(a.args[0]) if numeval(a.args[0], env) >= 0 else neg(go(a.args[0]))))
    for _ in range(3):
        v = go(v)
    return v


def site(w, o, field):
    s = w.ip.wsite.get((o.addr, field))
    return s or (o.cls.name if o.cls else '?')
