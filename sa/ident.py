"""Identity of symbolic numbers by random interpretation: an identity is proved by evaluating both sides
in the field of 2^61-1 elements at several random assignments of the unknowns (with random choices of the
roots), refuted by evaluating them over the reals, and otherwise decided in normal form."""
import math

from .terms import R, Atom, CUT, _qdepth, req, div, map_atoms, DD

M = (1 << 61) - 1


class NoRoot(Exception):
    pass


def _h(a, seed):
    x = (a.id * 0x9E3779B97F4A7C15 + seed * 0xBF58476D1CE4E5B9 + 0x94D049BB133111EB) & (2 ** 64 - 1)
    for _ in range(2):
        x ^= x >> 30
        x = x * 0xBF58476D1CE4E5B9 & (2 ** 64 - 1)
        x ^= x >> 27
        x = x * 0x94D049BB133111EB & (2 ** 64 - 1)
        x ^= x >> 31
    return x


def inv(x):
    if x == 0:
        raise ZeroDivisionError()
    return pow(x, M - 2, M)


class Field:
    """uf: roots, absolute values and unknown functions are taken as fixed (multiplicative resp. unknown) functions
    of the value of their argument, so that equal arguments give equal results."""

    def __init__(self, seed, uf=False):
        self.seed, self.memo, self.uf = seed, {}, uf
        self.soft = False        # an atom was met whose value is not determined by this evaluation

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            t = a.tag
            if t == 'q':
                v = self.num(a.args[0]) * inv(self.num(a.args[1])) % M
            elif t == 'sqrt':
                self.soft = True
                x = self.num(a.args[0])
                v = pow(x, (M + 1) // 4, M)
                if self.uf:
                    pass
                elif v * v % M != x:
                    raise NoRoot()
                elif _h(a, self.seed) & 8:
                    v = -v % M
            elif t == 'abs':
                self.soft = True
                v = self.num(a.args[0])
                if self.uf:
                    v = min(v, M - v)
                elif _h(a, self.seed) & 8:
                    v = -v % M
            elif t in ('sin', 'cos'):
                k = _h(Atom('sin', *a.args), self.seed) % M
                d = inv((1 + k * k) % M)
                v = (2 * k if t == 'sin' else 1 - k * k) * d % M
            elif t == 'det':
                x = a.args[0]
                v = self.atom(x) if isinstance(x, Atom) else self.num(x)
            else:
                if any(not isinstance(x, (str, int)) for x in a.args):
                    self.soft = True
                v = _h(a, self.seed) % M
            self.memo[a] = v
        return v

    def poly(self, p):
        s = 0
        for mo, c in p.t.items():
            x = c.numerator % M
            if c.denominator != 1:
                x = x * inv(c.denominator % M) % M
            for k, e in mo:
                x = x * pow(self.atom(Atom.by_id[k]), e, M) % M
            s += x
        return s % M

    def num(self, r):
        n = self.poly(r.num)
        d = self.poly(r.den)
        return n if d == 1 else n * inv(d) % M


class Real:
    def __init__(self, seed):
        self.seed, self.memo = seed, {}

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            t = a.tag
            if t == 'q':
                v = self.num(a.args[0]) / self.num(a.args[1])
            elif t == 'sqrt':
                x = self.num(a.args[0])
                v = math.sqrt(x) if x >= 0 else float('nan')
            elif t == 'abs':
                v = abs(self.num(a.args[0]))
            elif t == 'sin':
                v = math.sin(self.num(a.args[0]))
            elif t == 'cos':
                v = math.cos(self.num(a.args[0]))
            elif t == 'det':
                x = a.args[0]
                v = self.atom(x) if isinstance(x, Atom) else self.num(x)
            else:
                v = 0.3 + (_h(a, self.seed) % 100003) / 60000.
            self.memo[a] = v
        return v

    def poly(self, p):
        s = 0.
        for mo, c in p.t.items():
            x = float(c)
            for k, e in mo:
                x *= self.atom(Atom.by_id[k]) ** e
            s += x
        return s

    def num(self, r):
        return self.poly(r.num) / self.poly(r.den)


def expand(v, above):
    """Expand the quotients nested deeper than `above`; the inner ones stay opaque."""
    memo = {}
    old = CUT[0]
    CUT[0] = False
    try:
        def fn(a):
            if a.tag == 'q' and _qdepth(a, memo) > above:
                return div(expand(a.args[0], above), expand(a.args[1], above))
            return None
        return map_atoms(v, fn)
    finally:
        CUT[0] = old


NEEDED = 6


def same(a, b):
    """Is a == b for every value of the unknowns, the functions in them being unknown?  (False: not shown)"""
    if not isinstance(a, R) or not isinstance(b, R) or a == b:
        return a == b
    good = 0
    for seed in range(40):
        try:
            e = Field(seed, True)
            if e.num(a) != e.num(b):
                return False
            good += 1
            if good == NEEDED:
                return True
        except ZeroDivisionError:
            pass
    return False


def identical(a, b):
    """Is a == b for every value of the unknowns (wherever both are defined)?"""
    if not isinstance(a, R) or not isinstance(b, R):
        return a == b
    if a == b:
        return True
    for seed in (1, 2, 3):
        try:
            e = Real(seed)
            x, y = e.num(a), e.num(b)
            if x == x and y == y:
                if abs(x - y) > 1e-5 * (1 + abs(x) + abs(y)):
                    return False
                break
        except (ZeroDivisionError, OverflowError):
            pass
    good = 0
    for seed in range(400):
        try:
            e = Field(seed)
            if e.num(a) != e.num(b):
                if not e.soft:
                    return False
                break
            good += 1
            if good == NEEDED:
                return True
        except (NoRoot, ZeroDivisionError):
            pass
    qm = {}
    top = max([_qdepth(z, qm) for z in set(a.atoms()) | set(b.atoms())] or [0])
    for t in range(top - 1, -1, -1):
        u, v = expand(a, t), expand(b, t)
        old = CUT[0]
        CUT[0] = False
        try:
            if req(u, v):
                return True
        finally:
            CUT[0] = old
    return False
