"""Value numbers: canonical rational functions over interned atoms, conditions, and
ordered decision diagrams (gated values).

Everything here is a normal form: two program values that denote the same real-arithmetic
expression get the same number (up to the completeness of the rewriting).  No solver.
"""
from fractions import Fraction


class Imprecise(Exception):
    """The analysis met something it does not model; the obligation is undecided."""


# ------------------------------------------------------------------ atoms
DEPTH = [0]     # nesting while printing


class Atom:
    __slots__ = ("tag", "args", "id", "_h", "fv")
    table = {}
    by_id = []

    def __new__(cls, tag, *args):
        key = (tag,) + args
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.tag, a.args, a.id = tag, args, len(cls.by_id)
            a._h = hash(key)
            cls.table[key] = a
            cls.by_id.append(a)
        return a

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self.tag == 'sym':
            return '.'.join(str(x) for x in self.args)
        if self.tag == 'ix':
            return 'i%s' % (self.args[0],)
        if DEPTH[0] > 4:
            return '%s#%d' % (self.tag, self.id)
        DEPTH[0] += 1
        try:
            if self.tag == 'at':
                return '%s[%s]' % (self.args[0], ','.join(map(repr, self.args[1:])))
            return '%s(%s)' % (self.tag, ', '.join(map(_short, self.args)))
        finally:
            DEPTH[0] -= 1


def _short(x):
    s = x if isinstance(x, str) else repr(x)
    return s


ONE_M = ()


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({ONE_M: c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def add(self, o, k=1):
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + k * c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()}) if k else Poly({})

    def mul(self, o):
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        if len(d) > 20000:
            raise Imprecise('polynomial too large')
        return Poly(d)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const_val(self):
        return self.t.get(ONE_M, Fraction(0))

    def atoms(self):
        s = set()
        for m in self.t:
            for k, _ in m:
                s.add(k)
        return s

    def lead(self):
        return max(self.t, key=_mkey)

    def divexact(self, o):
        """self / o if exact, else None (multivariate long division, lex order)."""
        if not o.t:
            return None
        if len(self.t) > 400 or len(o.t) > 60:
            return None
        lo = max(o.t, key=_mkey)
        clo = o.t[lo]
        r = Poly(dict(self.t))
        q = {}
        steps = 0
        while r.t:
            steps += 1
            if steps > 400:
                return None
            lr = max(r.t, key=_mkey)
            m = _mono_div(lr, lo)
            if m is None:
                return None
            c = r.t[lr] / clo
            q[m] = q.get(m, 0) + c
            r = r.add(Poly({_mono_mul(m, k): v for k, v in o.t.items()}), -c)
        return Poly({m: c for m, c in q.items() if c})

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        ts = sorted(self.t.items())
        if len(ts) > 24:
            return '(%d terms: %r + ...)' % (len(ts), Poly(dict(ts[:6])))
        for m, c in sorted(ts, key=lambda mc: str([(repr(Atom.by_id[k]), e) for k, e in mc[0]])):
            fs = []
            for k, e in m:
                a = repr(Atom.by_id[k])
                fs.append(a if e == 1 else '%s^%d' % (a, e))
            body = '*'.join(fs)
            if not body:
                out.append('%s' % c)
            elif c == 1:
                out.append(body)
            elif c == -1:
                out.append('-' + body)
            else:
                out.append('%s*%s' % (c, body))
        return ' + '.join(out).replace('+ -', '- ')


def _mkey(m):
    # lexicographic term order on (atom id descending significance)
    return [(-k, e) for k, e in m] if m else []


def _mono_div(a, b):
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        if d.get(k, 0) < e:
            return None
        d[k] -= e
    return tuple(sorted((k, e) for k, e in d.items() if e))


P0, P1 = Poly({}), Poly.const(1)


def _reduce_powers(p):
    """Apply sqrt(x)^2 -> x, abs(x)^2 -> x^2, sin(x)^2 -> 1-cos(x)^2 until stable."""
    for _ in range(50):
        hit = None
        for m in p.t:
            for k, e in m:
                if e >= 2 and Atom.by_id[k].tag in ('sqrt', 'abs', 'sin'):
                    hit = k
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        a = Atom.by_id[hit]
        if a.tag == 'sqrt':
            sq = a.args[0].num       # sqrt atoms hold polynomials
        elif a.tag == 'abs':
            sq = a.args[0].num.mul(a.args[0].num)
        else:
            c = mk_cos(a.args[0])
            sq = P1.add(c.num.mul(c.num), -1)
        out = P0
        for m, c in p.t.items():
            d = dict(m)
            e = d.get(hit, 0)
            if e >= 2:
                d[hit] = e % 2
                base = Poly({tuple(sorted((k, x) for k, x in d.items() if x)): c})
                for _i in range(e // 2):
                    base = base.mul(sq)
                out = out.add(base)
            else:
                out = out.add(Poly({m: c}))
        p = out
    return p


class R:
    """A rational function num/den in normal form."""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=P1, raw=False):
        if not raw:
            num, den = _norm(num, den)
        self.num, self.den = num, den
        self._h = None

    @staticmethod
    def c(v):
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return R.atom(Atom('sym', repr(v)))
            v = Fraction(repr(v))
        return R(Poly.const(v), P1, True)

    @staticmethod
    def atom(a):
        return R(Poly.atom(a), P1, True)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.num, self.den))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, R) and self.num == o.num and self.den == o.den

    def is_const(self):
        return self.den == P1 and self.num.is_const()

    def const(self):
        return self.num.const_val() if self.is_const() else None

    def is_zero(self):
        return not self.num.t

    def atoms(self):
        return [Atom.by_id[k] for k in self.num.atoms() | self.den.atoms()]

    def __repr__(self):
        if self.den == P1:
            return repr(self.num)
        return '(%r)/(%r)' % (self.num, self.den)


def _norm(num, den):
    num, den = _reduce_powers(num), _reduce_powers(den)
    if not den.t:
        return Poly.atom(Atom('sym', 'DIV0')), P1
    if not num.t:
        return P0, P1
    if den.is_const():
        c = den.const_val()
        return (num if c == 1 else num.scale(1 / c)), P1
    # rationalise single-monomial denominators containing sqrt/abs
    if len(den.t) == 1:
        (m, c), = den.t.items()
        for k, e in m:
            a = Atom.by_id[k]
            if a.tag == 'sqrt':
                s = Poly.atom(a)
                return _norm(num.mul(s), den.mul(s))
    # common monomial factor
    common = None
    for p in (num, den):
        for m in p.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {k: min(e, d[k]) for k, e in common.items() if k in d}
            if not common:
                break
        if not common:
            break
    if common:
        cm = tuple(sorted(common.items()))
        num = Poly({_mono_div(m, cm): c for m, c in num.t.items()})
        den = Poly({_mono_div(m, cm): c for m, c in den.t.items()})
        return _norm(num, den)
    if len(den.t) > 1:
        q = num.divexact(den)
        if q is not None:
            return _reduce_powers(q), P1
        if len(num.t) > 1:
            q = den.divexact(num)
            if q is not None:
                return _norm(P1, q)
    c = den.t[den.lead()]
    if c != 1:
        num, den = num.scale(1 / c), den.scale(1 / c)
    return num, den


ZERO, ONE, NEG1 = R.c(0), R.c(1), R.c(-1)


# ------------------------------------------------------------------ decision diagrams
class DD:
    """cond (Atom) ? hi : lo, conditions ordered by atom id along every path."""
    __slots__ = ("c", "hi", "lo", "_h")

    def __init__(self, c, hi, lo):
        self.c, self.hi, self.lo = c, hi, lo
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.hi, self.lo))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, DD) and self.c is o.c and self.hi == o.hi and self.lo == o.lo)

    def __repr__(self):
        if DEPTH[0] > 6:
            return '{...}'
        DEPTH[0] += 1
        try:
            return '{%r ? %r : %r}' % (self.c, self.hi, self.lo)
        finally:
            DEPTH[0] -= 1


class Facts:
    """What the conditions taken so far say (single-expression intervals only)."""
    __slots__ = ("truth", "iv")

    def __init__(self, truth=None, iv=None):
        self.truth = truth or {}
        self.iv = iv or {}

    def assume(self, c, val):
        t = dict(self.truth)
        t[c] = val
        iv = self.iv
        if c.tag in ('lt0', 'eq0'):
            g, mk = _cgroup(c)[0]
            iv = dict(iv)
            cur = dict(iv.get(g, {}))
            # expr g + k ; lt0: g+k<0
            if c.tag == 'lt0':
                if val:
                    _tighten(cur, 'hi', mk, True)
                else:
                    _tighten(cur, 'lo', mk, False)
            elif val:
                _tighten(cur, 'hi', mk, False)
                _tighten(cur, 'lo', mk, False)
            iv[g] = cur
        elif c.tag == 'le':
            a, k = c.args
            iv = dict(iv)
            cur = dict(iv.get(a, {}))
            if val:
                _tighten(cur, 'hi', k, False)
            else:
                _tighten(cur, 'lo', k + 1, False)
            iv[a] = cur
        return Facts(t, iv)

    def decide(self, c):
        v = self.truth.get(c)
        if v is not None:
            return v
        if c.tag in ('lt0', 'eq0'):
            g, x = _cgroup(c)[0]
            cur = self.iv.get(g)
            if cur is None:
                return None
            hi, lo = cur.get('hi'), cur.get('lo')
            if c.tag == 'lt0':       # g < x ?
                if hi is not None and (hi[0] < x or (hi[0] == x and hi[1])):
                    return True
                if lo is not None and lo[0] >= x:
                    return False
            else:
                if hi is not None and (hi[0] < x or (hi[0] == x and hi[1])):
                    return False
                if lo is not None and (lo[0] > x or (lo[0] == x and lo[1])):
                    return False
                if hi is not None and lo is not None and hi[0] == lo[0] == x:
                    return True
        elif c.tag == 'le':
            a, k = c.args
            cur = self.iv.get(a)
            if cur is None:
                return None
            hi, lo = cur.get('hi'), cur.get('lo')
            if hi is not None and hi[0] <= k:
                return True
            if lo is not None and lo[0] > k:
                return False
        elif c.tag == 'eqv':
            a, k = c.args
            for c2, v2 in self.truth.items():
                if v2 and c2.tag == 'eqv' and c2.args[0] == a and c2.args[1] != k:
                    return False
        return None


def _tighten(cur, side, x, strict):
    old = cur.get(side)
    if old is None or (x < old[0] if side == 'hi' else x > old[0]) or (x == old[0] and strict and not old[1]):
        cur[side] = (x, strict)


_gcache = {}


def _group(r):
    """Split r into (non-constant part made monic in sign-preserving way is not applied, constant).

    Groups are keyed by the canonical direction; an expression and its negation share a key
    only through explicit handling of the sign below."""
    hit = _gcache.get(r)
    if hit is not None:
        return hit
    if r.den != P1:
        res = (r, Fraction(0))
    else:
        k = r.num.const_val()
        t = {m: c for m, c in r.num.t.items() if m != ONE_M}
        res = (R(Poly(t), P1, True), k)
    _gcache[r] = res
    return res


_cgroups = {}
_intern = {}


def _cgroup(c):
    """((group, -constant) of the condition's expression, the same of its negation), groups interned"""
    hit = _cgroups.get(c.id)
    if hit is None:
        g, k = _group(c.args[0])
        n, m = _group(s_neg_leaf(c.args[0]))
        hit = _cgroups[c.id] = ((_intern.setdefault(g, g), -k), (_intern.setdefault(n, n), m))
    return hit


def _neg_facts(f, c, val):
    """assume() plus the mirrored fact for the negated expression."""
    f = f.assume(c, val)
    if c.tag in ('lt0', 'eq0'):
        g, k = _cgroup(c)[1]
        iv = dict(f.iv)
        cur = dict(iv.get(g, {}))
        # lt0(r) true: r<0 -> -r>0
        if c.tag == 'lt0':
            if val:
                _tighten(cur, 'lo', -k, True)
            else:
                _tighten(cur, 'hi', -k, False)
        elif val:
            _tighten(cur, 'hi', -k, False)
            _tighten(cur, 'lo', -k, False)
        iv[g] = cur
        f = Facts(f.truth, iv)
    return f


class Oracle:
    """Fixes the conditions met along one path: given decisions first, then True."""

    def __init__(self, prefix=(), assume=None):
        self.assume = assume
        self.prefix, self.made, self.facts, self.log = list(prefix), [], NOFACTS, []

    def decide(self, v):
        while isinstance(v, DD):
            d = self.facts.decide(v.c)
            if d is None and self.assume is not None:
                d = self.assume(v.c)
                if d is not None and getattr(self.assume, 'record', False):
                    self.facts = _neg_facts(self.facts, v.c, d)
            if d is None:
                k = len(self.made)
                d = self.prefix[k] if k < len(self.prefix) else True
                self.made.append(d)
                self.log.append((v.c, d))
                self.facts = _neg_facts(self.facts, v.c, d)
            v = v.hi if d else v.lo
        return v

    def restrict(self, v):
        return _restrict(v, self.facts) if isinstance(v, DD) else v

    @staticmethod
    def paths(run, limit=4000, assume=None, stack=None, fifo=False):
        """run(oracle) for every feasible decision sequence."""
        stack = [()] if stack is None else stack
        n = 0
        while stack:
            p = stack.pop(0 if fifo else -1)
            o = Oracle(p, assume)
            n += 1
            if n > limit:
                raise Imprecise('more than %d paths' % limit)
            r = run(o)
            for k in range(len(p), len(o.made)):
                stack.append(tuple(o.made[:k]) + (not o.made[k],))
            yield o, r


NOFACTS = Facts()
MAXDD = 6000
_count = [0]


def lift(f, *args, facts=NOFACTS):
    """Apply f to the leaves of decision diagrams."""
    if not any(isinstance(a, DD) for a in args):
        return f(*args)
    _count[0] = 0
    return _lift(f, args, facts, {})


def _lift(f, args, facts, memo):
    top = None
    for a in args:
        while isinstance(a, DD):
            if top is None or a.c.id < top.id:
                top = a.c
            break
    if top is None:
        return f(*args)
    key = None
    d = facts.decide(top)
    if d is not None:
        return _lift(f, tuple((a.hi if d else a.lo) if isinstance(a, DD) and a.c is top else a for a in args), facts, memo)
    _count[0] += 1
    if _count[0] > MAXDD:
        raise Imprecise('decision diagram too large')
    hi = _lift(f, tuple(a.hi if isinstance(a, DD) and a.c is top else a for a in args), _neg_facts(facts, top, True), memo)
    lo = _lift(f, tuple(a.lo if isinstance(a, DD) and a.c is top else a for a in args), _neg_facts(facts, top, False), memo)
    return mkdd(top, hi, lo)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()      # a value no defined execution can observe


def mkdd(c, hi, lo):
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    if hi is lo or hi == lo:
        return hi
    if (isinstance(hi, DD) and hi.c.id <= c.id) or (isinstance(lo, DD) and lo.c.id <= c.id):
        return lift(lambda x, y, z: y if x else z, DD(c, True, False), hi, lo)
    return DD(c, hi, lo)


def ite(g, a, b):
    """g: boolean decision diagram (leaves True/False)."""
    if g is True:
        return a
    if g is False:
        return b
    return lift(lambda c, x, y: x if c else y, g, a, b)


def b_not(g):
    return lift(lambda c: not c, g)


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return lift(lambda x, y: x and y, a, b)


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return lift(lambda x, y: x or y, a, b)


def b_atom(c):
    return DD(c, True, False)


def restrict(v, g):
    """Simplify value v knowing that boolean diagram g holds."""
    if g is True or not isinstance(v, DD):
        return v
    facts = must_facts(g)
    out = _restrict(v, facts)
    return out


def must_facts(g):
    """Facts implied by every True path of g (conditions with one possible value)."""
    facts = NOFACTS
    if g is True or g is False:
        return facts
    while isinstance(g, DD):
        if g.hi is False:
            facts = _neg_facts(facts, g.c, False)
            g = g.lo
        elif g.lo is False:
            facts = _neg_facts(facts, g.c, True)
            g = g.hi
        else:
            # conditions decided on both sides
            fh, fl = must_facts(g.hi), must_facts(g.lo)
            for c, v in fh.truth.items():
                if fl.truth.get(c) == v:
                    facts = _neg_facts(facts, c, v)
            break
    return facts


def _restrict(v, facts):
    if not isinstance(v, DD):
        return v
    d = facts.decide(v.c)
    if d is True:
        return _restrict(v.hi, facts)
    if d is False:
        return _restrict(v.lo, facts)
    return mkdd(v.c, _restrict(v.hi, _neg_facts(facts, v.c, True)), _restrict(v.lo, _neg_facts(facts, v.c, False)))


def leaves(v, facts=NOFACTS):
    """(facts, leaf) for every feasible path."""
    if isinstance(v, DD):
        d = facts.decide(v.c)
        if d is not False:
            yield from leaves(v.hi, _neg_facts(facts, v.c, True))
        if d is not True:
            yield from leaves(v.lo, _neg_facts(facts, v.c, False))
    else:
        yield facts, v


# ------------------------------------------------------------------ scalar arithmetic
def _radd(a, b):
    if a.den == b.den:
        return R(a.num.add(b.num), a.den)
    return R(a.num.mul(b.den).add(b.num.mul(a.den)), a.den.mul(b.den))


_FACTORS = {}             # product -> factors (only under CUT; used for the sign of a product)


def _rmul(a, b):
    if a.is_zero() or b.is_zero():
        return ZERO
    r = R(a.num.mul(b.num), a.den.mul(b.den))
    if CUT[0] and len(a.num.t) > 1 and len(b.num.t) > 1 and a != b:
        _FACTORS[r] = (a, b)
    return r


CUT = [False]            # keep quotients as opaque value numbers (expanded on demand by req)


def _lead(p):
    return p.t[max(p.t)]


def _rdiv(a, b):
    if CUT[0] and b.num.t and not b.is_const() and a.num.t:
        if a == b:
            return ONE
        ca, cb = _lead(a.num), _lead(b.num)
        x = R(a.num.scale(1 / ca), a.den, True)
        y = R(b.num.scale(1 / cb), b.den, True)
        if x == y:
            return R.c(ca / cb)
        return R(Poly.atom(Atom('q', x, y)).scale(ca / cb), P1, True)
    return R(a.num.mul(b.den), a.den.mul(b.num))


def _qdepth(a, memo):
    hit = memo.get(a)
    if hit is None:
        hit = 0
        for x in a.args:
            if isinstance(x, R):
                for z in x.atoms():
                    hit = max(hit, _qdepth(z, memo))
        memo[a] = hit = hit + (1 if a.tag == 'q' else 0)
    return hit


def unq(v, upto=None):
    """Expand opaque quotients (those nested at most `upto` deep)."""
    memo = {}
    old = CUT[0]
    CUT[0] = False
    try:
        def fn(a):
            if a.tag == 'q' and (upto is None or _qdepth(a, memo) <= upto):
                return div(unq(a.args[0], upto), unq(a.args[1], upto))
            return None
        return map_atoms(v, fn)
    finally:
        CUT[0] = old


def s_neg_leaf(a):
    return R(a.num.scale(-1), a.den, True)


def add(a, b):
    return lift(_radd, a, b)


def sub(a, b):
    return lift(lambda x, y: _radd(x, s_neg_leaf(y)), a, b)


def mul(a, b):
    return lift(_rmul, a, b)


def div(a, b):
    return lift(_rdiv, a, b)


def neg(a):
    return lift(s_neg_leaf, a)


def req(a, b):
    """Equality of leaves by cross multiplication."""
    if a == b:
        return True
    d = _radd(a, s_neg_leaf(b))
    if d.is_zero():
        return True
    memo = {}
    dep = max([_qdepth(z, memo) for z in d.atoms()] or [0])
    for k in range(1, dep + 1):
        try:
            x = unq(d, k)
        except Imprecise:
            return False
        if x.is_zero():
            return True
    return False


def _sqrt_leaf(r):
    if r.is_zero():
        return ZERO
    # sqrt(n/d) = sqrt(n*d)/d   (d > 0 in every use; else sign is |d|)
    n, d = r.num, r.den
    if d != P1:
        return _rdiv(_sqrt_leaf(R(n.mul(d), P1)), R(d, P1))
    # numeric content
    k = None
    cs = list(n.t.values())
    from math import gcd, isqrt
    num = 0
    den = 1
    for c in cs:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    cont = Fraction(num, den)
    n2 = n.scale(1 / cont)
    # square part of the content
    def sqpart(x):
        s = 1
        i = 2
        while i * i <= x and i < 2000:
            while x % (i * i) == 0:
                x //= i * i
                s *= i
            i += 1
        r = isqrt(x)
        if r * r == x:
            return s * r, 1
        return s, x
    a, b = sqpart(cont.numerator)
    c, d2 = sqpart(cont.denominator)
    outer = Fraction(a, c)
    inner = Fraction(b, d2)
    if n2 == P1:
        if inner == 1:
            return R.c(outer)
        return _rmul(R.c(outer), R.atom(Atom('sqrt', R.c(inner))))
    # single monomial with even powers
    if len(n2.t) == 1:
        (m, cc), = n2.t.items()
        if cc == 1 and all(e % 2 == 0 for _, e in m):
            base = R(Poly({tuple((k, e // 2) for k, e in m): Fraction(1)}), P1, True)
            out = mk_abs(base)
            if inner != 1:
                out = _rmul(out, R.atom(Atom('sqrt', R.c(inner))))
            return _rmul(R.c(outer), out)
    sq = _poly_sqrt(n2)
    if sq is not None:
        out = mk_abs(R(sq, P1))
        if inner != 1:
            out = _rmul(out, R.atom(Atom('sqrt', R.c(inner))))
        return _rmul(R.c(outer), out)
    body = R(n2.scale(inner), P1, True)
    return _rmul(R.c(outer), R.atom(Atom('sqrt', body)))


def _poly_sqrt(p):
    """q with q*q == p, or None."""
    if len(p.t) > 60 or len(p.t) < 3:
        return None
    r = p
    q = P0
    lm = p.lead()
    if any(e % 2 for _, e in lm):
        return None
    c = p.t[lm]
    from math import isqrt
    if c <= 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    lead = Poly({tuple((k, e // 2) for k, e in lm): Fraction(a, b)})
    q = lead
    for _ in range(40):
        r = p.add(q.mul(q), -1)
        if not r.t:
            return q
        lr = r.lead()
        m = _mono_div(lr, lead.lead())
        if m is None:
            return None
        q = q.add(Poly({m: r.t[lr] / (2 * lead.t[lead.lead()])}))
    return None


def sqrt(a):
    return lift(_sqrt_leaf, a)


def _canon_sign(r):
    """(sign, r') with r' having positive leading coefficient (leading by printed order)."""
    if r.is_zero():
        return 1, r
    m = min(r.num.t, key=_mkey)
    if r.num.t[m] < 0:
        return -1, s_neg_leaf(r)
    return 1, r


def mk_abs(r):
    def f(r):
        if r.is_const():
            return R.c(abs(r.const()))
        _, r = _canon_sign(r)
        if r.den == P1 and len(r.num.t) == 1:
            (m, c), = r.num.t.items()
            nm = []
            out = R.c(abs(c))
            for k, e in m:
                a = Atom.by_id[k]
                if a.tag in ('sqrt', 'abs', 'len', 'norm') or e % 2 == 0:
                    out = _rmul(out, R(Poly({((k, e),): Fraction(1)}), P1, True))
                else:
                    nm.append((k, e))
            if not nm:
                return out
            return _rmul(out, R.atom(Atom('abs', R(Poly({tuple(nm): Fraction(1)}), P1, True))))
        if r.den != P1:
            return _rdiv(mk_abs(R(r.num, P1)), mk_abs(R(r.den, P1)))
        # content out
        c = abs(r.num.t[min(r.num.t, key=_mkey)])
        return _rmul(R.c(c), R.atom(Atom('abs', R(r.num.scale(1 / c), P1, True))))
    return lift(f, r)


def _angle_terms(r):
    """[(coefficient, monomial)] of a polynomial angle, or None."""
    if r.den != P1 or len(r.num.t) > 5:
        return None
    return sorted(r.num.t.items(), key=lambda mc: _mkey(mc[0]))


def _sincos(r):
    """(sin r, cos r) with sums of angles expanded."""
    if r.is_zero():
        return ZERO, ONE
    ts = _angle_terms(r)
    if ts is None:
        s, r = _canon_sign(r)
        a = R.atom(Atom('sin', r))
        return (a if s > 0 else s_neg_leaf(a)), R.atom(Atom('cos', r))
    if len(ts) == 1:
        (m, c), = ts
        if m == ((PI.id, 1),) and (2 * c).denominator == 1:
            k = int(2 * c) % 4
            return (ZERO, ONE, ZERO, NEG1)[k], (ONE, ZERO, NEG1, ZERO)[k]
        sg = 1 if c > 0 else -1
        r = R(Poly({m: abs(c)}), P1, True)
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and Atom.by_id[m[0][0]].tag == 'atan2':
            y, x = Atom.by_id[m[0][0]].args
            n = _sqrt_leaf(_radd(_rmul(x, x), _rmul(y, y)))
            sn, cs = _rdiv(y, n), _rdiv(x, n)
        else:
            sn, cs = R.atom(Atom('sin', r)), R.atom(Atom('cos', r))
        return (sn if sg > 0 else s_neg_leaf(sn)), cs
    sn, cs = ZERO, ONE
    for m, c in ts:
        s2, c2 = _sincos(R(Poly({m: c}), P1, True))
        sn, cs = (_radd(_rmul(sn, c2), _rmul(cs, s2)), _radd(_rmul(cs, c2), s_neg_leaf(_rmul(sn, s2))))
    return sn, cs


_sc_memo = {}


def _sc(r):
    h = _sc_memo.get(r)
    if h is None:
        h = _sc_memo[r] = _sincos(r)
    return h


def mk_sin(r):
    return lift(lambda x: _sc(x)[0], r)


def mk_cos(r):
    return lift(lambda x: _sc(x)[1], r)


PI = Atom('sym', 'pi')


def _drop_2pi(r):
    if r.den != P1:
        return r, 0
    c = r.num.t.get(((PI.id, 1),))
    if c is None or c.denominator != 1 or c.numerator % 2:
        return r, 0
    t = dict(r.num.t)
    del t[((PI.id, 1),)]
    return R(Poly(t), P1, True), c


def mk_atan2(y, x):
    return lift(lambda a, b: R.atom(Atom('atan2', a, b)), y, x)


def power(a, n):
    if n < 0:
        return div(ONE, power(a, -n))
    out = ONE
    for _ in range(n):
        out = mul(out, a)
    return out


# ------------------------------------------------------------------ conditions
NAT = set()          # atoms known to be natural numbers


def nat(a):
    NAT.add(a)
    return a


def _single_nat(r):
    """r == s*n + k with n a natural atom and s = +-1 -> (s, n, k)."""
    if r.den != P1:
        return None
    k = r.num.const_val()
    t = [(m, c) for m, c in r.num.t.items() if m != ONE_M]
    if len(t) != 1:
        return None
    (m, c), = t
    if len(m) != 1 or m[0][1] != 1:
        return None
    a = Atom.by_id[m[0][0]]
    if a not in NAT or k / c != int(k / c):
        return None
    return (1 if c > 0 else -1), a, k / abs(c)


def _le(a, k):
    """a <= k for natural atom a."""
    k = int(k) if k == int(k) else int(k // 1)
    if k < 0:
        return False
    return b_atom(Atom('le', a, k))


def undet(v):
    """Erase gradient-detachment marks."""
    return map_atoms(v, lambda a: (R.atom(a.args[0]) if isinstance(a.args[0], Atom) else a.args[0]) if a.tag == 'det' else None)


def c_lt0(r):
    """r < 0"""
    def f(r):
        fac = _FACTORS.get(r) if CUT[0] else None
        r = undet(r)
        if r.is_const():
            return r.const() < 0
        fac = fac or (_FACTORS.get(r) if CUT[0] else None)
        if fac:
            x, y = fac
            nx, ny = c_lt0(x), c_lt0(y)
            px, py = c_lt0(s_neg_leaf(x)), c_lt0(s_neg_leaf(y))
            return b_or(b_and(nx, py), b_and(px, ny))
        s = _single_nat(r)
        if s:
            sg, a, k = s
            if sg > 0:              # a + k < 0  <=> a <= -k-1
                return _le(a, -k - 1 if k == int(k) else (-k) // 1)
            return b_not(_le(a, k if k == int(k) else k // 1))   # -a + k < 0 <=> a > k
        if _nonneg(r):
            return False
        if _positive(s_neg_leaf(r)):
            return True
        # clear a positive scale
        if r.den == P1:
            c = abs(r.num.t[min(r.num.t, key=_mkey)])
            if c != 1:
                r = R(r.num.scale(1 / c), P1, True)
        elif _nonneg(R(r.den, P1)):
            return c_lt0(R(r.num, P1))
        return b_atom(Atom('lt0', r))
    return lift(f, r)


POSA = set()            # unknowns that are positive in the analysed scene


def _nonneg(r):
    if r.den != P1:
        return False
    for m, c in r.num.t.items():
        if c < 0:
            return False
        for k, e in m:
            a = Atom.by_id[k]
            if not (e % 2 == 0 or a.tag in ('sqrt', 'abs') or a in NAT or a in POSA):
                return False
    return True


def _positive(r):
    """r > 0 whatever the unknowns are"""
    return _nonneg(r) and any(all(Atom.by_id[k] in POSA for k, e in m) for m in r.num.t)


def c_eq0(r):
    def f(r):
        r = undet(r)
        if r.is_const():
            return r.const() == 0
        r = R(r.num, P1, True)
        s = _single_nat(r)
        if s:
            sg, a, k = s
            x = -k * sg
            if x != int(x) or x < 0:
                return False
            return b_and(_le(a, x), b_not(_le(a, x - 1)))
        _, r = _canon_sign(r)
        c = r.num.t[min(r.num.t, key=_mkey)]
        if c != 1:
            r = R(r.num.scale(1 / c), P1, True)
        return b_atom(Atom('eq0', r))
    return lift(f, r)


def c_lt(a, b):
    return c_lt0(sub(a, b))


def c_le(a, b):
    return b_not(c_lt0(sub(b, a)))


def c_eq(a, b):
    return c_eq0(sub(a, b))


# ------------------------------------------------------------------ substitution / mapping
REBUILD = {}


def _rebuild(a, args):
    fn = REBUILD.get(a.tag)
    if fn is not None:
        return fn(*args)
    b = Atom(a.tag, *args)
    if a in NAT:
        NAT.add(b)
    return R.atom(b)


REBUILD['sqrt'] = lambda r: sqrt(r)
REBUILD['abs'] = lambda r: mk_abs(r)
REBUILD['sin'] = lambda r: mk_sin(r)
REBUILD['cos'] = lambda r: mk_cos(r)
REBUILD['atan2'] = lambda y, x: mk_atan2(y, x)
REBUILD['det'] = lambda x: det(R.atom(x) if isinstance(x, Atom) else x)
REBUILD['inv'] = None
del REBUILD['inv']


def rebuild_cond(c, args):
    if c.tag == 'lt0':
        return c_lt0(args[0])
    if c.tag == 'eq0':
        return c_eq0(args[0])
    if c.tag == 'le':
        a = args[0]
        if isinstance(a, Atom):
            return _le(a, c.args[1])
        return b_not(c_lt0(sub(R.c(c.args[1]), a)))
    return b_atom(Atom(c.tag, *args))


BINDERS = {'sum', 'forall', 'exists', 'first', 'argsel', 'maxof', 'prod'}


def map_atoms(v, fn, memo=None, bound=frozenset()):
    """Rewrite every atom bottom-up.  fn(atom) -> R or None (None: keep, with mapped arguments)."""
    if memo is None:
        memo = {}

    def go_r(r):
        hit = memo.get(r)
        if hit is not None:
            return hit
        changed = {}
        for a in r.atoms():
            n = go_atom(a)
            if n is not None:
                changed[a.id] = n
        if not changed:
            memo[r] = r
            return r

        def ev(p):
            out = ZERO
            for m, c in p.t.items():
                term = R.c(c)
                rest = []
                for k, e in m:
                    if k in changed:
                        term = mul(term, power(changed[k], e))
                    else:
                        rest.append((k, e))
                if rest:
                    term = mul(term, R(Poly({tuple(rest): Fraction(1)}), P1, True))
                out = add(out, term)
            return out
        res = ev(r.num)
        if r.den != P1:
            res = div(res, ev(r.den))
        memo[r] = res
        return res

    def go_atom(a):
        key = ('atom', a)
        if key in memo:
            return memo[key]
        n = fn(a)
        if n is None:
            args = tuple(go(x) for x in a.args)
            if any(x is not y for x, y in zip(args, a.args)):
                if args == a.args:
                    n = None
                elif any(isinstance(x, DD) and not isinstance(y, DD) for x, y in zip(args, a.args)):
                    n = lift(lambda *xs: _rebuild(a, xs), *args)
                else:
                    n = _rebuild(a, args)
        elif isinstance(n, Atom):
            n = R.atom(n)
        memo[key] = n
        return n

    def go_cond(c):
        key = ('cond', c)
        if key in memo:
            return memo[key]
        args = tuple(go(x) if not isinstance(x, Atom) else (go_atom(x) or x) for x in c.args)
        if all(x is y for x, y in zip(args, c.args)):
            n = b_atom(c)
        else:
            n = rebuild_cond(c, args)
        memo[key] = n
        return n

    def go(x):
        if isinstance(x, R):
            return go_r(x)
        if isinstance(x, DD):
            hit = memo.get(x)
            if hit is not None:
                return hit
            hi, lo = go(x.hi), go(x.lo)
            out = ite(go_cond(x.c), hi, lo)
            memo[x] = out
            return out
        if isinstance(x, Atom):
            n = go_atom(x)
            if n is None:
                return x
            return n
        if isinstance(x, tuple):
            t = tuple(go(y) for y in x)
            return x if all(p is q for p, q in zip(t, x)) else t
        return x
    return go(v)


def subst(v, mapping):
    """mapping: Atom -> R (or DD)."""
    if not mapping:
        return v
    return map_atoms(v, lambda a: mapping.get(a))


LEAF = {'sym', 'at', 'det', 'ix', 'bx', 'len', 'el', 'phi'}
CONSTS = {'pi', 'inf', 'nan', '-inf'}
def det(v):
    """Mark every symbolic leaf in v as detached from the autograd graph."""
    def fn(a):
        if a.tag == 'det':
            return R.atom(a)
        if a.tag not in LEAF or a.tag in ('ix', 'bx') or a in NAT or (a.tag == 'sym' and a.args[0] in CONSTS):
            return R.atom(a) if a.tag in LEAF else None
        return R.atom(Atom('det', a))
    return map_atoms(v, fn)


def all_atoms(v, out=None, conds=True):
    """Every atom occurring anywhere in v (also nested)."""
    if out is None:
        out = set()
    if isinstance(v, R):
        for a in v.atoms():
            all_atoms(a, out, conds)
    elif isinstance(v, DD):
        if conds:
            all_atoms(v.c, out, conds)
        all_atoms(v.hi, out, conds)
        all_atoms(v.lo, out, conds)
    elif isinstance(v, Atom):
        if v not in out:
            out.add(v)
            for x in v.args:
                all_atoms(x, out, conds)
    elif isinstance(v, tuple):
        for x in v:
            all_atoms(x, out, conds)
    return out


def sym(*names):
    return R.atom(Atom('sym', *names))


def bx_level(*xs):
    """Smallest bound-index level not used inside the given values."""
    lv = -1
    for x in xs:
        for a in all_atoms(x):
            if a.tag == 'bx':
                lv = max(lv, a.args[0])
    return lv + 1


def close(ix, n, *bodies):
    """Rename the free index ix to a canonical bound index in bodies."""
    k = Atom('bx', bx_level(*bodies))
    return k, tuple(subst(b, {ix: R.atom(k)}) for b in bodies)


def sum_over(ix, n, body):
    """Sum over the free index ix (Atom 'ix') in range(n)."""
    def f(b):
        k, (b2,) = close(ix, n, b)
        return mk_sum(k, n, b2)
    if isinstance(body, DD) and ix not in _cond_atoms(body):
        return lift(f, body)
    return f(body)


def _cond_atoms(v):
    s = set()
    if isinstance(v, DD):
        all_atoms(v.c, s)
        s |= _cond_atoms(v.hi) | _cond_atoms(v.lo)
    return s


def mk_sum(ix, n, body):
    """Sum over the bound index ix in range(n) of body (R or DD)."""
    if isinstance(body, R):
        if body.is_zero():
            return ZERO
        if body.den == P1 or not _mentions(R(body.den, P1), ix):
            # linearity: pull out terms/factors free of ix
            out = ZERO
            groups = {}
            for m, c in body.num.t.items():
                dep, free = [], []
                for k, e in m:
                    (dep if _mentions(Atom.by_id[k], ix) else free).append((k, e))
                groups.setdefault(tuple(free), []).append((tuple(dep), c))
            for free, terms in groups.items():
                inner = P0
                const = Fraction(0)
                for d, c in terms:
                    if d:
                        inner = inner.add(Poly({d: c}))
                    else:
                        const += c
                fr = R(Poly({free: Fraction(1)}), P1, True)
                if const:
                    out = add(out, mul(mul(fr, R.c(const)), n))
                for m, c in inner.t.items():
                    out = add(out, mul(mul(fr, R.c(c)), _sum_atom(ix, n, R(Poly({m: Fraction(1)}), P1, True))))
            if body.den != P1:
                out = div(out, R(body.den, P1))
            return out
    return _sum_atom(ix, n, body)


def _sum_atom(ix, n, body):
    k = Atom('bx', bx_level(*[subst(body, {ix: ZERO})]))
    if k is not ix:
        body = subst(body, {ix: R.atom(k)})
    return R.atom(Atom('sum', k, n, body))


def _mentions(x, ix):
    return ix in all_atoms(x)


REBUILD['sum'] = lambda ix, n, body: mk_sum(ix if isinstance(ix, Atom) else ix.atoms()[0], n, body)
