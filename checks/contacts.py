"""C17 - C19, C32: the narrow phase."""
from fractions import Fraction

import sa.terms as TT
from sa.phys import *
from sa.report import Check, clip
from sa.forks import explore
from sa.ident import identical
from sa.terms import Oracle, c_lt0, c_lt, bx_level
from sa.values import SliceV, AbsRaise, LV

WHERE = 'DiffContactHandler.__call__'


# ------------------------------------------------------------ scenes
def symhull(w, n, kind='Hull'):
    """a hull of unknown number of vertices in an arbitrary pose"""
    b = w.body(kind, n)
    ip, st = w.ip, w.st
    N = R.atom(nat(Atom('nverts', n)))
    c = ip.sym_list(('verts', n), w.vec('proto', 2), st.heap, st, N)
    w.setattr(b, 'verts', ip.sym_new(st, c))
    w.setattr(b, 'p', w.vec(n + '.P', 3))
    p = w.attr(b, 'p')
    for name, k in (('pos', SliceV(R.c(1), None, None)), ('rot', SliceV(ZERO, R.c(1), None))):
        r = ip.class_attr(b.cls, name, st)
        if not (r is not None and isinstance(r[0], Func) and r[0].kind == 'property'):
            w.setattr(b, name, ip.getitem(p, k, st))
    # an edge remembered from an earlier detection, any of them
    w.setattr(b, 'last_sat_idx', R.atom(nat(Atom('sat', n))))
    return b


def assume(c):
    """Scenes: hulls have at least three vertices, a support search over them finds one, and
    coordinates are small against the 1e10 sentinels."""
    if c.tag == 'le' and c.args[0].tag == 'nverts' and c.args[1] in (0, 1, 2):
        return False
    if c.tag == 'any':
        return True
    if c.tag == 'lt0':
        r = c.args[0]
        if r.den == P1:
            k = r.num.const_val()
            m = [abs(x) for mo, x in r.num.t.items() if mo != ()]
            if k != 0 and m and max(m) <= abs(k) * Fraction(1, 10 ** 9):
                return k < 0
    return None


P1 = TT.P1


class Scene:
    """Two bodies (circle or hull of unknown size) offered to the world's contact callback."""

    def __init__(self, c, ka, kb, handler=None):
        TT.CUT[0] = True
        self.kinds = (ka, kb)
        self.w = w = W(c)
        mk = lambda k, n: w.circle(n) if k == 'Circle' else symhull(w, n, k)
        self.a, self.b = mk(ka, 'a'), mk(kb, 'b')
        kw = dict(eps=S('eps'))
        if handler:
            kw['contact_callback'] = handler
        self.world = w.new('World', w.lst([self.a, self.b]), **kw)
        w.st.guard = True
        ga, gb = w.attr(self.a, 'geom'), w.attr(self.b, 'geom')

        def hook(ip, st, o, args, kw):
            ip.call(args[1], [args[0], ga, gb], {}, st)
        w.ip.collide_hook = hook
        self.st0 = w.st

    def centre(self, k):
        n = 'ab'[k]
        return [S(n + ('.p' if self.kinds[k] == 'Circle' else '.P'), j) for j in (1, 2)]

    def run(self, o):
        """[(normal, offset1, offset2, penetration, i1, i2)] and the state on one path"""
        w = self.w
        w.ip.oracle = o
        st = self.st0.clone()
        try:
            w.call(self.world, 'find_contacts', st=st)
        finally:
            w.ip.oracle = None
        if st.dead:
            raise AbsRaise()
        cs = o.restrict(w.attr(self.world, 'contacts', st))
        c = o.restrict(st.heap[(cs.addr, 'c')])
        if not isinstance(c, LV):
            raise Imprecise('contact list of unknown length')
        out = []
        for it in c.items:
            t, i, j = w.items(o.restrict(it), st)
            q = [[o.restrict(x) for x in w.vals(o.restrict(v), st)] for v in w.items(o.restrict(t), st)]
            if [len(x) for x in q] != [2, 2, 2, 1]:
                raise Imprecise('contact of unexpected shape')
            out.append((q[0], q[1], q[2], q[3][0], o.restrict(i), o.restrict(j)))
        return out

    def explore(self, judge):
        """judge(contacts, oracle) -> list of results, on every path"""
        def one(o):
            n0 = len(self.w.ip.raised)
            try:
                res = judge(self.run(o), o)
            except AbsRaise:
                res = [('raises', [(r.kind, r.what, str(r.func), str(r.loc)) for r in self.w.ip.raised[n0:]])]
            return res + [('called', sorted(self.w.ip.called))]
        old = TT.CUT[0]
        try:
            return explore(one, assume)
        finally:
            TT.CUT[0] = old


# ------------------------------------------------------------ geometry of terms
def U(x):
    return x


eq = identical


def eqv(a, b):
    return all(eq(x, y) for x, y in zip(a, b))


def top_atoms(v, out=None):
    """Atoms of a number, looking through quotients and roots but not into conditions or indices."""
    out = set() if out is None else out
    if isinstance(v, (list, tuple)):
        for x in v:
            top_atoms(x, out)
    elif isinstance(v, R):
        for a in v.atoms():
            if a not in out:
                out.add(a)
                if a.tag in ('q', 'sqrt', 'abs'):
                    for x in a.args:
                        top_atoms(x, out)
    return out


def indices(v, hull):
    """index terms of the hull's vertices occurring in v, in a fixed order"""
    out = []
    for a in sorted(top_atoms(v), key=lambda a: a.id):
        if a.tag == 'at' and a.args[0] == ('verts', hull) and a.args[1] not in out:
            out.append(a.args[1])
    return out


def vert(hull, i):
    return [R.atom(Atom('at', ('verts', hull), i, '.%d' % k)) for k in (0, 1)]


def unmod(i, N):
    if i.den == P1 and len(i.num.t) == 1:
        (m, c), = i.num.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = Atom.by_id[m[0][0]]
            if a.tag == 'mod' and a.args[1] == N:
                return a.args[0]
    return i


def is_next(i, k, N):
    d = sub(unmod(k, N), unmod(i, N))
    return isinstance(d, R) and (eq(d, ONE) or eq(d, sub(ONE, N)))


def nverts(hull):
    return R.atom(nat(Atom('nverts', hull)))


def edges(v, hull):
    ix = indices(v, hull)
    N = nverts(hull)
    return [(i, k) for i in ix for k in ix if i != k and is_next(i, k, N)]


def outward(hull, i, k):
    """unit normal of the edge from vertex i to vertex k (clockwise in screen coordinates: outward)"""
    e = vsub(vert(hull, k), vert(hull, i))
    l = sqrt(dot(e, e))
    return [div(e[1], l), neg(div(e[0], l))]


def entails(o, v):
    """truth value of a condition diagram under the path's facts, None when open"""
    v = o.restrict(v)
    if isinstance(v, bool):
        return v
    for f, l in leaves(v, o.facts):
        pass
    s = {l for _, l in leaves(v, o.facts)}
    return s.pop() if len(s) == 1 else None


def lt0_facts(o):
    return [(c.args[0], v) for c, v in o.facts.truth.items() if c.tag == 'lt0']


def _known_lt0(o, x):
    """truth of x < 0 among the path's facts, whatever the form x is written in"""
    d = entails(o, c_lt0(x))
    if d is not None:
        return d
    x = U(x)
    for r, v in lt0_facts(o):
        r = U(r)
        if req(r, x):
            return v
        if v and req(s_neg(r), x):
            return False
    return None


def s_neg(r):
    return TT.s_neg_leaf(r)


def nonneg_fact(o, z, e2, strict=False):
    """The path knows z >= 0 (z > 0), possibly scaled by a power of the length whose square is e2."""
    l = sqrt(e2)
    for f in (z, div(z, l), div(z, e2)):
        if known_lt0(o, f) is False and not strict:
            return True
        if known_lt0(o, neg(f)) is True:
            return True
    return False


# ------------------------------------------------------------ C17
def judge_contact(sc, q, o, out):
    n, p1, p2, pen, i1, i2 = q
    ka, kb = sc.kinds
    nm = '%s-%s' % (ka.lower(), kb.lower())
    ok = lambda t: out.append(('ok', '%s: %s' % (nm, t)))

    def bad(key, msg, exp=None, found=None):
        out.append(('viol', '%s:%s' % (nm, key), WHERE, '%s: %s' % (nm, msg), exp, clip(found)))
    if (i1, i2) not in ((ZERO, ONE), (ONE, ZERO)):
        bad('indices', 'a contact does not name the two bodies', '(0, 1) or (1, 0)', (i1, i2))
        return
    s1, s2 = (0, 1) if i1 == ZERO else (1, 0)
    k1, k2 = sc.kinds[s1], sc.kinds[s2]
    h1, h2 = 'ab'[s1], 'ab'[s2]
    c1, c2 = sc.centre(s1), sc.centre(s2)
    un = [U(x) for x in n]
    if not eq(dot(un, un), ONE):
        bad('unit', 'the contact normal is not a unit vector', '|n| = 1', n)
        return
    ok('unit normal')
    x1, x2 = vadd(c1, p1), vadd(c2, p2)
    if not eqv(x1, x2):
        bad('point', 'the two contact offsets denote different world points', x1, x2)
        return
    ok('one world point')
    x = [U(v) for v in x1]
    pen = U(pen)
    if k1 == 'Circle' and k2 == 'Circle':
        d = vsub(c1, c2)
        l = sqrt(dot(d, d))
        if not eqv(un, [div(v, l) for v in d]):
            bad('normal', 'the normal does not point from the second circle to the first', None, n)
        elif not eq(pen, sub(add(S('%s.r' % h1), S('%s.r' % h2)), l)):
            bad('penetration', 'the penetration is not the sum of the radii minus the distance', None, pen)
        elif not eq(cross(vsub(x, c2), d), ZERO):
            bad('point', 'the contact point is not on the line of the centres', None, p1)
        else:
            ok('normal, depth and point of two circles')
        return
    if 'Circle' in (k1, k2):
        # m points from the hull to the circle
        if k1 == 'Circle':
            m, hull, cc, ch, r = un, h2, c1, c2, S(h1 + '.r')
        else:
            m, hull, cc, ch, r = [neg(v) for v in un], h1, c2, c1, S(h2 + '.r')
        d = vsub(cc, x)
        if not eq(U(cross(d, m)), ZERO):
            bad('foot', 'the circle centre is not in the direction of the normal from the contact point', None, p1)
            return
        if not eq(sub(r, dot(m, d)), pen):
            bad('penetration', 'the penetration is not the radius minus the signed distance of the centre along the normal', sub(r, dot(m, d)), pen)
            return
        ok('depth is radius minus signed distance')
        # outside: m is the direction itself; inside: m is an outward edge normal and the point is on that edge
        l = sqrt(U(dot(d, d)))
        if eqv([mul(v, l) for v in m], d):
            ok('normal points from the closest point to the circle')
            return
        E = edges(n, hull)
        for i, k in E:
            if eqv(m, outward(hull, i, k)):
                if eq(U(dot(m, vsub(vsub(x, ch), vert(hull, i)))), ZERO):
                    ok('normal is an edge normal through the contact point')
                    return
                bad('edge', 'the contact point is not on the edge the normal belongs to', None, p2)
                return
        if eqv([mul(v, l) for v in m], [neg(v) for v in d]) or any(eqv(m, [neg(v) for v in outward(hull, i, k)]) for i, k in E):
            bad('direction', 'the normal points from the first body to the second', 'from the second to the first', n)
        elif top_atoms(d) <= top_atoms(m) or E:
            bad('normal', 'the normal is neither the direction to the circle nor an outward edge normal', None, n)
        else:
            raise Imprecise('contact normal of unknown form')
        return
    # hull against hull: the normal belongs to an edge of one of the hulls
    for hull, ch, other, co, sg in ((h1, c1, h2, c2, -1), (h2, c2, h1, c1, 1)):
        m = un if sg > 0 else [neg(v) for v in un]
        for i, k in edges(n, hull):
            if not eqv(m, outward(hull, i, k)):
                continue
            ok('normal is an edge normal, from the second body to the first')
            if not eq(U(dot(m, vsub(vsub(x, ch), vert(hull, i)))), ZERO):
                bad('edge', 'the contact point is not on the line of the reference edge', None, p1)
                return
            ok('point on the line of the reference edge')
            e = vsub(vert(hull, k), vert(hull, i))
            for end, v in (('start', vsub(vsub(x, ch), vert(hull, i))), ('end', vsub(vadd(vert(hull, k), ch), x))):
                z = U(dot(e, v))
                if not (eq(z, ZERO) or eq(z, dot(e, e)) or nonneg_fact(o, z, dot(e, e))):
                    bad('beyond ' + end, 'a contact point may lie beyond the %s of the reference edge' % end, None, p1)
                    return
            ok('point between the ends of the reference edge')
            y = vsub(vsub(x, [mul(pen, v) for v in m]), co)
            I = indices([p1, p2, pen], other)
            for a in I:
                for b in I:
                    if a != b and is_next(a, b, nverts(other)) and \
                       eq(U(cross(vsub(y, vert(other, a)), vsub(vert(other, b), vert(other, a)))), ZERO):
                        ok('depth reaches the other hull')
                        return
            if len(I) == 1 and eqv(y, vert(other, I[0])):
                ok('depth reaches the other hull')
                return
            bad('penetration', 'contact point minus depth along the normal is not on an edge of the other hull', None, pen)
            return
        for i, k in edges(n, hull):
            if eqv(m, [neg(v) for v in outward(hull, i, k)]):
                bad('direction', 'the normal points from the first body to the second', 'from the second to the first', n)
                return
    if edges(n, h1) or edges(n, h2):
        bad('normal', 'the normal is not the normal of an edge of either hull', None, n)
    else:
        raise Imprecise('contact normal of unknown form')


# ------------------------------------------------------------ running maxima and early exits
def bx_of(*xs):
    """the free bound index of a closed body"""
    return Atom('bx', bx_level(*xs) - 1)


def argmax_of(o, s, expr_ok):
    """The expression (as a function of the index) that a `last index where ...` atom maximises, or None.
    Accepts extra conditions known to be excluded for every index on this path."""
    cond = drop_any(s.args[1])
    for p in [a for a in all_atoms(cond) if a.tag == 'prev']:
        e = p.args[0]
        if not isinstance(e, R):
            continue
        k = bx_of(e)
        i = bx_of(s.args[1])
        cur = subst(e, {k: R.atom(i)})
        P = R.atom(p)
        for g in (c_lt(P, cur), b_not(c_lt(cur, P))):
            if b_and(cond, b_not(g)) is not False:
                continue
            rest = b_and(g, b_not(cond))
            ok = rest is False or all(x.tag == 'any' or x.tag in ('lt0',) for x in TT._cond_atoms(rest)) and \
                implied(rest, [a for a, v in o.facts.truth.items() if a.tag == 'exists' and v is False and a.args[0] == s.args[0]])
            if ok and expr_ok(lambda j: subst(e, {k: j})):
                return lambda j: subst(e, {k: j})
    return None


def drop_any(v):
    """Support searches always find a vertex (see assume)."""
    if not isinstance(v, DD):
        return v
    if v.c.tag == 'any':
        return drop_any(v.hi)
    return TT.mkdd(v.c, drop_any(v.hi), drop_any(v.lo))


def implied(rest, exists):
    """rest (a condition on an index) is excluded for every index by one of the `exists ...` known false"""
    rest = drop_any(rest)
    if rest is False:
        return True
    for x in exists:
        if b_and(rest, b_not(drop_any(x.args[1]))) is False:
            return True
    return False


from sa.terms import b_and, b_not


def covers(i, k, N):
    """index term i, as a function of the running index k in range(N), takes every value of range(N)"""
    j = unmod(i, N)
    d = sub(j, R.atom(k))
    return isinstance(d, R) and k not in all_atoms(d)


def support_dir(o, s, hull):
    """direction in which the vertex with index atom s is the extreme one, or None"""
    found = []

    def is_dot(f):
        j = Atom('ix', 'probe')
        v = f(R.atom(j))
        x, y = vert(hull, R.atom(j))
        if v.den != TT.P1:
            return False
        d = []
        for c in (x, y):
            (m, _), = c.num.t.items()
            a = m[0][0]
            t = {}
            for mo, co in v.num.t.items():
                if any(q == a for q, _ in mo):
                    if (a, 1) not in mo:
                        return False
                    t[tuple(z for z in mo if z[0] != a)] = co
            d.append(R(TT.Poly(t), TT.P1, True))
        if not identical(dot(d, [x, y]), v) or any(j in all_atoms(z) for z in d):
            return False
        found.append(d)
        return True
    if s.tag != 'sel' or s.args[0] != nverts(hull) or argmax_of(o, s, is_dot) is None:
        return None
    return found[0]


def atom_of(r):
    if isinstance(r, R) and r.den == TT.P1 and len(r.num.t) == 1:
        (m, c), = r.num.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return Atom.by_id[m[0][0]]
    return None


def is_separation(o, sc, side, f):
    """f(i) is the distance of the other hull (or of the circle) from the line of edge i of a hull"""
    hull, other = 'ab'[side], 'ab'[1 - side]
    N = nverts(hull)
    j = nat(Atom('ix', 'edge'))
    v = f(R.atom(j))
    ch, co = sc.centre(side), sc.centre(1 - side)
    for i, k in edges(v, hull):
        if not covers(i, j, N):
            continue
        m = outward(hull, i, k)
        if sc.kinds[1 - side] == 'Circle':
            if identical(v, sub(dot(m, vsub(vsub(co, ch), vert(hull, i))), S(other + '.r'))):
                return True
            continue
        for t in indices(v, other):
            p = vsub(vadd(vert(other, t), co), ch)
            if not identical(v, dot(m, vsub(p, vert(hull, i)))):
                continue
            a = atom_of(t)
            d = support_dir(o, a, other) if a is not None else None
            if d is not None and same_dir(d, [neg(z) for z in m]):
                return True
    return False


def same_dir(d, m):
    """two directions are equal, or parallel by a positive factor (one of them a unit vector of the other)"""
    return eqv(d, m) or eqv(d, [mul(z, sqrt(dot(d, d))) for z in m])


def sels(o, extra, N):
    out = set()
    for c, v in o.facts.truth.items():
        all_atoms(c, out) if False else out.update(x for x in all_atoms(R.atom(c)) if x.tag == 'sel')
    for x in top_atoms(extra):
        out.update(y for y in all_atoms(R.atom(x)) if y.tag == 'sel')
    return sorted([x for x in out if x.args[0] == N and not any(b.tag == 'bx' and False for b in ())], key=lambda a: a.id)


def known_lt0(o, x):
    """truth of x < 0 among the path's facts, in whatever form it is written"""
    d = entails(o, c_lt0(x))
    if d is not None:
        return d
    for r, v in lt0_facts(o):
        if identical(r, x):
            return v
        if v and identical(s_neg(r), x):
            return False
    return None


def sep_bounded(o, sc, side, extra):
    """The path knows that no edge of this hull separates the bodies by more than the margin."""
    N = nverts('ab'[side])
    eps = S('eps')
    for s in sels(o, extra, N):
        f = argmax_of(o, s, lambda f: is_separation(o, sc, side, f))
        if f is not None and known_lt0(o, sub(eps, f(R.atom(s)))) is False:
            return True
    for c, v in o.facts.truth.items():
        if c.tag == 'exists' and v is False and c.args[0] == N:
            i = bx_of(c.args[1])
            for g in TT._cond_atoms(c.args[1]):
                if g.tag == 'lt0':
                    d = sub(eps, g.args[0])
                    if is_separation(o, sc, side, lambda j: subst(d, {i: j})) and drop_any(c.args[1]) == b_atom(g):
                        return True
    return False


from sa.terms import b_atom


def separated(o, sc):
    """The path knows an edge that separates the bodies by more than the margin."""
    eps = S('eps')
    for side in (0, 1):
        if sc.kinds[side] == 'Circle':
            continue
        N = nverts('ab'[side])
        for c, v in o.facts.truth.items():
            if c.tag == 'exists' and v is True and c.args[0] == N:
                i = bx_of(c.args[1])
                body = drop_any(c.args[1])
                for g in TT._cond_atoms(body):
                    if g.tag == 'lt0' and b_and(body, b_not(b_atom(g))) is False:
                        d = sub(eps, g.args[0])
                        if is_separation(o, sc, side, lambda j: subst(d, {i: j})):
                            return True
        for s in sels(o, [], N):
            f = argmax_of(o, s, lambda f: is_separation(o, sc, side, f))
            if f is not None and known_lt0(o, sub(eps, f(R.atom(s)))) is True:
                return True
    return False


def search_dirs(o, sc, hull):
    """directions of the support points found to be in the simplex already (the search has ended)"""
    out = []
    for c, v in o.facts.truth.items():
        if c.tag == 'opq' and v is True and isinstance(c.args[0], tuple) and c.args[0][0] == 'in' and c.args[0][1] in sc.w.ip.members:
            e, _ = sc.w.ip.members[c.args[0][1]]
            e = [o.restrict(x) for x in e] if isinstance(e, list) else []
            if len(e) == 2:
                a = atom_of(e[0])
                t = atom_of(a.args[1]) if a is not None and a.tag == 'at' else None
                d = support_dir(o, t, hull) if t is not None else None
                out.append(d)
    return out


def judge_margin(sc, qs, o, out):
    ka, kb = sc.kinds
    nm = '%s-%s' % (ka.lower(), kb.lower())
    eps = S('eps')
    ok = lambda t: out.append(('ok', '%s: %s' % (nm, t)))

    def bad(key, msg, exp=None, found=None):
        out.append(('viol', '%s:%s' % (nm, key), WHERE, '%s: %s' % (nm, msg), exp, clip(found)))
    for q in qs:
        d = known_lt0(o, add(eps, q[3]))
        if d is not False and not sep_only(sc, o, q):
            bad('too far', 'a contact is reported without its separation being within the margin', 'separation <= eps', q[3])
        else:
            ok('reported contacts are within the margin')
    if ka == kb == 'Circle':
        ca, cb = sc.centre(0), sc.centre(1)
        dv = vsub(ca, cb)
        sep = sub(sqrt(dot(dv, dv)), add(S('a.r'), S('b.r')))
        if not qs and known_lt0(o, sub(eps, sep)) is not True:
            bad('missed', 'two circles within the margin get no contact', 'separation > eps', lt0_facts(o))
        elif len(qs) > 1:
            bad('twice', 'more than one contact between two circles')
        else:
            ok('two circles: contact exactly within the margin')
        return
    if 'Circle' in (ka, kb):
        side = 0 if kb == 'Circle' else 1
        hull, ch, cc = 'ab'[side], sc.centre(side), sc.centre(1 - side)
        rad = S('ab'[1 - side] + '.r')
        if len(qs) > 1:
            bad('twice', 'more than one contact between a circle and a hull')
            return
        q0 = vsub(cc, ch)
        dirs = search_dirs(o, sc, hull)
        if qs:
            n, p1, p2 = qs[0][:3]
            x = (p1 if qs[0][4] == R.c(side) else p2)
            if edges(n, hull):
                ok('circle inside the hull')
                return
            for D in dirs:
                d = vsub(q0, x)
                if D is None or not eq(cross(D, d), ZERO):
                    bad('search', 'the closest point search ends without a support point in the direction of the circle',
                        'support point in the direction from the closest point to the circle', D)
                    return
                if not (eqv(D, d) or known_lt0(o, dot(D, d)) is False or known_lt0(o, neg(dot(D, d))) is True or
                        any(known_lt0(o, v) is False for v in dots(o, D, q0))):
                    bad('search side', 'the closest point search ends with a support point away from the circle', None, D)
                    return
            ok('closest point search')
            return
        if separated(o, sc):
            ok('no contact only beyond the margin')
            return
        # |q0 - x| - rad > eps for the closest point x
        for r, v in lt0_facts(o):
            if not v:
                continue
            l = sub(add(eps, rad), r)
            for a in r.atoms():
                if a.tag == 'sqrt' and identical(R.atom(a), l):
                    xx = a.args[0]
                    for D in dirs:
                        if D is None:
                            bad('search', 'the closest point search ends without a support point', None, None)
                            return
                        if not dist_form(o, xx, D, q0):
                            bad('search', 'the closest point search ends without a support point in the direction of the circle', xx, D)
                            return
                    ok('no contact only beyond the margin')
                    return
        bad('missed', 'a circle within the margin of a hull gets no contact', 'separation > eps', lt0_facts(o))
        return
    # two hulls
    if qs:
        for side in (0, 1):
            if not sep_bounded(o, sc, side, [x for q in qs for x in q[0] + q[1]]):
                bad('separated', 'two hulls get a contact although an edge may separate them by more than the margin',
                    'every edge of both hulls separates by at most eps', clip(lt0_facts(o)))
                return
        ok('contacts only when no edge separates by more than the margin')
    elif separated(o, sc):
        ok('no contact when an edge separates by more than the margin')
    elif rejected(o, sc) or outside(o, sc):
        ok('no contact when the facing edge is beyond the margin or beside the reference edge')
    elif contradiction(o, sc):
        pass
    else:
        bad('missed', 'two hulls not separated by the margin get no contact', None, clip(lt0_facts(o)))


def sep_only(sc, o, q):
    """circle inside a hull: the separation is minus the radius at most whatever the margin"""
    return 'Circle' in sc.kinds and sc.kinds[0] != sc.kinds[1] and bool(edges(q[0], 'a') or edges(q[0], 'b'))


def dots(o, D, q0):
    """candidates for D.(q - s), s a point of the simplex"""
    for r, v in lt0_facts(o):
        for a in top_atoms(r):
            if a.tag == 'at' and isinstance(a.args[0], tuple) and a.args[0][0] == 'phi' and a.args[-1].endswith('.0'):
                s = [R.atom(a), R.atom(Atom('at', a.args[0], a.args[1], a.args[2][:-1] + '1'))]
                yield dot(D, vsub(q0, s))


def phi_points(o):
    out = []
    for r, v in lt0_facts(o):
        for a in top_atoms(r):
            if a.tag == 'at' and isinstance(a.args[0], tuple) and a.args[0][0] == 'phi' and a.args[-1].endswith('.0') and a not in out:
                out.append(a)
    return [[R.atom(a), R.atom(Atom('at', a.args[0], a.args[1], a.args[2][:-1] + '1'))] for a in sorted(out, key=lambda a: a.id)]


def dist_form(o, xx, D, q0):
    """xx is the squared distance of the circle centre along direction D"""
    DD_ = dot(D, D)
    if identical(xx, DD_):
        return True
    for s in phi_points(o):
        t = dot(D, vsub(q0, s))
        if identical(mul(xx, DD_), mul(t, t)):
            return True
    return False


def ref_edges(o, sc):
    """(hull, i, k) of edges whose normal occurs in the path's facts"""
    R_ = [r for r, _ in lt0_facts(o)]
    for side in (0, 1):
        for i, k in edges(R_, 'ab'[side]):
            yield side, i, k


def rejected(o, sc):
    """a point of the other hull's edge is known to be beyond the margin of a reference edge"""
    eps = S('eps')
    true = [sub(eps, r) for r, v in lt0_facts(o) if v]
    for side, i, k in ref_edges(o, sc):
        hull, other = 'ab'[side], 'ab'[1 - side]
        m = outward(hull, i, k)
        sh = vsub(sc.centre(1 - side), sc.centre(side))
        base = dot(m, vsub(sh, vert(hull, i)))
        for d in true:
            I = indices(d, other)
            for a in I:
                if identical(d, add(base, dot(m, vert(other, a)))):
                    return True
            for a, b in edges(d, other):
                # a point between a and b where the line crosses an end of the reference edge
                for end in (vert(hull, i), vert(hull, k)):
                    t = [neg(m[1]), m[0]]
                    ya, yb = vadd(vert(other, a), sh), vadd(vert(other, b), sh)
                    den = dot(t, vsub(yb, ya))
                    lam = div(dot(t, vsub(end, ya)), den)
                    y = vadd(ya, [mul(lam, z) for z in vsub(yb, ya)])
                    if identical(d, dot(m, vsub(y, vert(hull, i)))):
                        return True
    return False


def outside(o, sc):
    """both ends of the other hull's edge are known to lie beyond the same end of a reference edge"""
    true = [r for r, v in lt0_facts(o) if v]
    for side, i, k in ref_edges(o, sc):
        hull, other = 'ab'[side], 'ab'[1 - side]
        m = outward(hull, i, k)
        sh = vsub(sc.centre(1 - side), sc.centre(side))
        for t, end in (([neg(m[1]), m[0]], vert(hull, i)), ([neg(m[1]), m[0]], vert(hull, k)),
                       ([m[1], neg(m[0])], vert(hull, i)), ([m[1], neg(m[0])], vert(hull, k))):
            hits = set()
            for r in true:
                for a in indices(r, other):
                    if identical(r, dot(t, vsub(vadd(vert(other, a), sh), end))):
                        hits.add(a)
            if len(hits) >= 2:
                return True
    return False


def contradiction(o, sc):
    """the path claims that an edge has negative length"""
    for side, i, k in ref_edges(o, sc):
        e = vsub(vert('ab'[side], k), vert('ab'[side], i))
        l = sqrt(dot(e, e))
        for r, v in lt0_facts(o):
            if identical(r, l if v else neg(l)):
                return True
    return False


PAIRS = [('Circle', 'Circle'), ('Circle', 'Hull'), ('Hull', 'Circle'), ('Hull', 'Hull')]


def collect(c, name, results):
    """Merge the results of all paths into the check."""
    n = {'paths': 0, 'contacts': 0}
    texts, dead = {}, 0
    for path in results:
        n['paths'] += 1
        for r in path:
            if r[0] == 'ok':
                texts[r[1]] = texts.get(r[1], 0) + 1
                c.obl.append((r[1], 'discharged'))
            elif r[0] == 'viol':
                c.viol(*r[1:])
            elif r[0] == 'error':
                c.undecided('%s: %s' % (name, r[1]))
            elif r[0] == 'called':
                c.analysed |= set(r[1])
            elif r[0] == 'raises':
                for kind, what, func, loc in r[1]:
                    if kind == 'implicit':
                        c.viol('raises:%s:%s' % (func, what), '%s (%s)' % (loc, func), '%s: a valid scene makes this raise %s' % (name, what))
            elif r[0] == 'dead':
                dead += 1
    c.counts[name] = dict(n, obligations=texts)


def ode_scene(c):
    """Two bodies and three contacts reported by the collision library for their geometries."""
    w = W(c)
    a, b = w.circle('a'), w.rect('b')
    world = w.new('World', w.lst([a, b]), eps=S('eps'), contact_callback=w.cls('OdeContactHandler'))
    w.st.guard = True
    ga, gb = w.attr(a, 'geom'), w.attr(b, 'geom')
    w.ip.collide_hook = lambda ip, st, o, args, kw: ip.call(args[1], [args[0], ga, gb], {}, st)

    def hits(ip, st, x, y):
        out = []
        for k in range(3):
            g = (x, y) if k != 1 else (y, x)
            out.append((TupV([S('hit', k, 'x'), S('hit', k, 'y'), R.c(0 if k < 2 else 1)]),
                        TupV([S('hit', k, 'nx'), S('hit', k, 'ny'), ZERO]), S('hit', k, 'd'), g[0], g[1]))
        return out
    w.ip.hits_hook = hits
    return w, world, (ga, gb)


def c17_ode(c):
    w, world, (ga, gb) = ode_scene(c)
    where = 'OdeContactHandler.__call__'
    pos = {}
    for k, n in enumerate('ab'):
        pos[R.c(k)] = [S(n + '.p', 1), S(n + '.p', 2)]

    def judge(o):
        w.ip.oracle = o
        st = w.st.clone()
        try:
            w.call(world, 'find_contacts', st=st)
        finally:
            w.ip.oracle = None
        if st.dead:
            raise AbsRaise()
        lst = o.restrict(st.heap[(o.restrict(w.attr(world, 'contacts', st)).addr, 'c')])
        out, seen = [], []
        for it in lst.items:
            t, i, j = w.items(o.restrict(it), st)
            n, p1, p2, pen = [[o.restrict(x) for x in w.vals(o.restrict(v), st)] for v in w.items(o.restrict(t), st)]
            i, j = o.restrict(i), o.restrict(j)
            if (i, j) not in ((ZERO, ONE), (ONE, ZERO)):
                out.append(('viol', 'ode:indices', where, 'a contact does not name the two bodies', '(0, 1) or (1, 0)', (i, j)))
                continue
            x1, x2 = vadd(pos[i], p1), vadd(pos[j], p2)
            k = [k for k in range(3) if eqv(x1, [S('hit', k, 'x'), S('hit', k, 'y')])]
            if not k:
                out.append(('viol', 'ode:point1', where, "the first offset is not the library's contact point seen from the first body", None, p1))
                continue
            k = k[0]
            seen.append(k)
            if not eqv(x1, x2):
                out.append(('viol', 'ode:point2', where, "the second offset is not the library's contact point seen from the second body", None, p2))
                continue
            m = [S('hit', k, 'nx'), S('hit', k, 'ny')]
            if (i == ZERO) == (k == 1):
                m = [neg(v) for v in m]
            if not eqv(n, m):
                out.append(('viol', 'ode:normal', where, "the normal is not the library's normal for the order of the two bodies", m, n))
                continue
            if len(pen) != 1 or not eq(pen[0], sub(S('hit', k, 'd'), mul(R.c(2), S('eps')))):
                out.append(('viol', 'ode:penetration', where, 'the penetration is not the depth reduced by both margins', None, pen))
                continue
            out.append(('ok', 'library contact: normal, point and depth passed on'))
        if 2 in seen:
            out.append(('viol', 'ode:plane', where, 'a contact off the plane of the simulation is reported', None, None))
        if len(set(seen)) < len(seen):
            out.append(('viol', 'ode:twice', where, 'a contact is reported twice', None, None))
        neg_depth = any(known_lt0(o, S('hit', k, 'd')) is True for k in (0, 1))
        if not neg_depth and not {0, 1} <= set(seen) and not any(r[0] == 'viol' for r in out):
            out.append(('viol', 'ode:missed', where, 'a contact of the collision library in the plane is not reported', None, clip(lt0_facts(o))))
        return out + [('called', sorted(w.ip.called))]
    collect(c, 'ode', explore(judge, assume))


def c17():
    c = Check('C17', 'contact geometry', 'every path of the contact handlers on two circles, a circle and a hull in both '
              'orders, and two hulls (any number of vertices): identities of the reported normal, offsets and depth')
    for ka, kb in PAIRS:
        name = '%s-%s' % (ka.lower(), kb.lower())

        def go():
            sc = Scene(c, ka, kb)

            def judge(qs, o):
                out = []
                for q in qs:
                    judge_contact(sc, q, o, out)
                return out or [('none',)]
            res = sc.explore(judge)
            collect(c, name, res)
            if not c.counts[name]['obligations'] and not c.undec and not c.viols:
                c.viol(name + ':none', WHERE, '%s: no contact is ever reported' % name)
        c.guard(name, go)
    c.guard('ode', c17_ode, c)
    return c.finish()


# ------------------------------------------------------------ C18
def geoms_in(w, world):
    sp = w.attr(world, 'space')
    return w.st.heap[(sp.addr, '%geoms')].items


def excl_scene(c, kinds, excluded, handler, late, history):
    """World of several bodies; `excluded` lists (declaring body, other body)."""
    TT.CUT[0] = True
    w = W(c)
    bs = [w.circle('abcd'[i]) if k == 'Circle' else symhull(w, 'abcd'[i], k) for i, k in enumerate(kinds)]

    def declare():
        for x, y in excluded:
            w.call(bs[x], 'add_no_contact', bs[y])
    if not late:
        declare()
    world = w.new('World', w.lst(list(bs)), eps=S('eps'), contact_callback=w.cls(handler))
    if late:
        declare()
    for h in history:
        if h == 'find':
            w.call(world, 'find_contacts')
        elif h == 'move' and kinds == ('Circle',) * len(kinds):
            for b in bs:
                w.call(b, 'move', S('dt'))
        elif h == 'set_p' and kinds == ('Circle',) * len(kinds):
            w.call(world, 'set_p', w.vec('np', 3 * len(bs)))
    w.st.guard = True
    return w, world, bs


def pair_result(w, world, gx, gy, o, n0):
    """number of contacts reported for one candidate pair, and the pairs named"""
    w.ip.collide_hook = lambda ip, st, q, args, kw: ip.call(args[1], [args[0], gx, gy], {}, st)
    w.ip.hits_hook = lambda ip, st, x, y: [(TupV([S('hit', 'x'), S('hit', 'y'), ZERO]), TupV([S('hit', 'nx'), S('hit', 'ny'), ZERO]),
                                            S('hit', 'd'), x, y)]
    w.ip.oracle = o
    st = w.st.clone()
    try:
        w.call(world, 'find_contacts', st=st)
    finally:
        w.ip.oracle = None
    if st.dead:
        raise AbsRaise()
    lst = o.restrict(st.heap[(o.restrict(w.attr(world, 'contacts', st)).addr, 'c')])
    if not isinstance(lst, LV):
        raise Imprecise('contact list of unknown length')
    return lst.items


def c18():
    c = Check('C18', 'no-contact pairs', 'every path of both contact handlers on pairs declared as not in contact (from either '
              'side, before or after the world is built, before and after moves) and on the remaining pairs')
    CC3 = ('Circle',) * 3
    cases = []
    for handler in ('DiffContactHandler', 'OdeContactHandler'):
        for excl in ([(0, 1)], [(1, 0)], [(0, 1), (0, 2)], [(1, 0), (2, 0)], [(0, 1), (2, 1)], [(0, 1), (1, 0)], [(0, 1), (0, 1)]):
            for late in (False, True):
                cases.append((handler, CC3, excl, late, ()))
        cases.append((handler, CC3, [(0, 1)], False, ('find', 'move', 'find')))
        cases.append((handler, CC3, [(1, 2)], True, ('set_p', 'find')))
        for ks in (('Circle', 'Hull'), ('Hull', 'Circle'), ('Hull', 'Hull'), ('Circle', 'Rect'), ('Rect', 'Hull')):
            cases.append((handler, ks, [(0, 1)], False, ()))
            cases.append((handler, ks, [(1, 0)], True, ()))
    npairs = 0
    for handler, kinds, excl, late, hist in cases:
        where = handler + '.__call__'
        text = '%s, %s, %s excluded %s%s' % (handler, '-'.join(kinds), excl, 'late' if late else 'early', ', ' + '-'.join(hist) if hist else '')

        def go():
            nonlocal npairs
            w, world, bs = excl_scene(c, kinds, excl, handler, late, hist)
            g = [w.attr(b, 'geom') for b in bs]
            out = {frozenset(p) for p in excl}
            for i in range(len(bs)):
                for j in range(len(bs)):
                    if i == j:
                        continue
                    npairs += 1
                    ex = frozenset((i, j)) in out
                    if not ex and len(bs) == 2:
                        continue

                    def judge(o):
                        n0 = len(w.ip.raised)
                        try:
                            its = pair_result(w, world, g[i], g[j], o, n0)
                        except AbsRaise:
                            return [('raises', [(r.kind, r.what, str(r.func), str(r.loc)) for r in w.ip.raised[n0:]])]
                        res = [('n', len(its))]
                        if ex and its:
                            res.append(('viol', '%s:reported' % handler, where,
                                        '%s: a contact is reported for the excluded pair (%d, %d)' % (text, i, j), 'none', len(its)))
                        return res + [('called', sorted(w.ip.called))]
                    res = explore(judge, assume)
                    if ex:
                        collect(c, text, res)
                        if not any(r[0] == 'viol' for p in res for r in p):
                            c.ok('%s: pair (%d, %d) reports nothing on any path' % (text, i, j))
                    else:
                        collect(c, text, res)
                        if any(r[0] == 'n' and r[1] for p in res for r in p):
                            c.ok('%s: pair (%d, %d) still collides' % (text, i, j))
                        elif not c.undec:
                            c.viol('%s:others' % handler, where, '%s: the pair (%d, %d), which is not excluded, never collides' % (text, i, j))
        old = TT.CUT[0]
        try:
            c.guard(text, go)
        finally:
            TT.CUT[0] = old
    c.counts = {'scenes': len(cases), 'candidate pairs': npairs}
    return c.finish()


# ------------------------------------------------------------ C19: collision geometry
def nonneg(r, pos):
    """r >= 0 when the atoms accepted by pos are"""
    if not isinstance(r, R) or r.den != P1:
        return False
    return all(k >= 0 and all(e % 2 == 0 or pos(Atom.by_id[a]) for a, e in m) for m, k in r.num.t.items())


def broad_scene(c, kind, big):
    """(world, bodies, body judged): the body as built, with the world around it"""
    w = W(c)
    if kind == 'Circle':
        b = w.circle('b')
    elif kind == 'Rect':
        b = w.rect('b')
    else:
        b = w.hull('b', big)
    return w, b


def c19_geometry(c):
    eps = S('b.eps')
    pos = lambda a: a.tag in ('sqrt', 'abs') or a.tag == 'sym' and a.args[0] in ('b.eps', 'b.r', 'b.d') or \
        a.tag == 'det' and pos(a.args[0])

    def judge_kind(kind, n):
        w, b = broad_scene(c, kind, n)
        where = '%s._create_geom' % kind
        g = w.attr(b, 'geom')
        k = w.st.heap[(g.addr, '%kind')]
        if k == 'box':
            if kind != 'Rect':
                raise Imprecise('box geometry for a %s' % kind)
            L = w.st.heap[(g.addr, '%lengths')]
            for i in (0, 1):
                d = sub(undet(L.items[i]), add(S('b.d', i), mul(R.c(2), eps)))
                c.eq(all(nonneg(undet(x), pos) for _, x in leaves(d)), '%s box, side %d' % (kind, i), '%s:box' % kind, where,
                     'the collision box of a %s may be smaller than the body enlarged by its margin' % kind,
                     'sides of at least dims + 2 eps', L.items[i])
            c.eq(all(nonneg(undet(x), pos) and not (isinstance(x, R) and x.is_zero()) for _, x in leaves(L.items[2])),
                 '%s box, depth' % kind, '%s:depth' % kind, where, 'the collision box has no depth', None, L.items[2])
            return
        r = w.st.heap[(g.addr, '%radius')]
        verts = [w.vals(v) for v in w.items(w.attr(b, 'verts'))] if kind != 'Circle' else [None]
        for f, x in leaves(r):
            x = undet(x)
            for v in verts:
                if kind == 'Circle':
                    ok = nonneg(sub(x, add(S('b.r'), eps)), pos)
                else:
                    ok = covered(f, x, eps, [undet(z) for z in v], pos, verts)
                c.eq(ok, '%s sphere%s' % (kind, ''), '%s:radius' % kind, where,
                     'the collision sphere of a %s may be smaller than the body enlarged by its margin' % kind,
                     'radius of at least the size of the body + eps', x)
        w.done()
    old = TT.CUT[0]
    for kind, n in (('Circle', 0), ('Rect', 0), ('Hull', 3), ('Hull', 4)):
        TT.CUT[0] = kind == 'Hull'      # centroid quotients stay opaque
        try:
            c.guard('%s geometry' % kind, judge_kind, kind, n)
        finally:
            TT.CUT[0] = old

    def space():
        w = W(c)
        bs = [w.circle('a'), w.rect('b'), w.hull('c', 3), w.circle('d')]
        seen = []
        w.ip.collide_hook = lambda ip, st, o, args, kw: seen.append((o, args))
        world = w.new('World', w.lst(list(bs)), eps=S('eps'))
        w.call(world, 'find_contacts')
        gs = [w.attr(b, 'geom') for b in bs]
        if not seen:
            c.viol('space:collide', 'World.find_contacts', 'looking for contacts does not ask the broadphase')
            return
        o, args = seen[-1]
        items = w.st.heap[(o.addr, '%geoms')]
        items = items.items
        c.eq(len(items) == len(gs) and all(sum(x == g for x in items) == 1 for g in gs), 'every body in the collision space once',
             'space:members', 'World.__init__', 'the collision space does not contain every body exactly once', len(gs), len(items))
        for i, g in enumerate(gs):
            k = w.attr(g, 'body')
            c.eq(k == R.c(i), 'geometry %d names its body' % i, 'space:index', 'World.__init__',
                 'the collision geometry of body %d names body %r' % (i, k), i, k)
        w.done()
    c.guard('collision space', space)


def covered(f, x, eps, v, pos, verts):
    """x >= |v| + eps under the facts f"""
    l2 = dot(v, v)
    l = sqrt(l2)
    rest = sub(x, eps)
    if nonneg(sub(rest, l), pos):
        return True
    o = Oracle(())
    o.facts = f
    # rest is (at least) the length of another vertex known to be no shorter
    for u in verts:
        u = [undet(z) for z in u]
        m2 = dot(u, u)
        if nonneg(sub(rest, sqrt(m2)), pos):
            for a, b in ((l2, m2), (l, sqrt(m2))):
                if known_lt0(o, sub(a, b)) is True or known_lt0(o, sub(b, a)) is False:
                    return True
                if chain(o, a, b, [dot(z, z) if a is l2 else sqrt(dot(z, z)) for z in verts], set()):
                    return True
    return False


def chain(o, a, b, vals, seen):
    """a <= b by a chain of known comparisons"""
    for m in vals:
        m = undet(m)
        if identical(m, a) or any(identical(m, s) for s in seen):
            continue
        if known_lt0(o, sub(a, m)) is True or known_lt0(o, sub(m, a)) is False:
            if identical(m, b) or chain(o, m, b, vals, seen | {a}):
                return True
    return False


def c19():
    c = Check('C19', 'detection margin', 'collision geometry of every body class against its shape and margin; every path of the '
              'contact handler: facts established before a contact is reported or refused, for two circles, a circle and a hull '
              'in both orders, and two hulls (any number of vertices)')
    c19_geometry(c)
    for ka, kb in PAIRS:
        name = '%s-%s' % (ka.lower(), kb.lower())

        def go():
            sc = Scene(c, ka, kb)

            def judge(qs, o):
                out = []
                judge_margin(sc, qs, o, out)
                return out or [('none',)]
            collect(c, name, sc.explore(judge))
        c.guard(name, go)
    return c.finish()


# ------------------------------------------------------------ C32
class Helpers:
    def __init__(self, c):
        TT.CUT[0] = False
        self.w = w = W(c)
        self.h = w.new('DiffContactHandler')
        w.st.guard = True

    def run(self, o, name, args):
        w = self.w
        st = w.st.clone()
        w.ip.oracle = o
        try:
            r = w.ip.call(w.attr(self.h, name, st), args, {}, st)
        finally:
            w.ip.oracle = None
        if st.dead:
            raise AbsRaise()
        return o.restrict(r), st

    def explore(self, c, text, name, args, judge):
        def one(o):
            n0 = len(self.w.ip.raised)
            try:
                r, st = self.run(o, name, args)
                res = judge(r, o, st)
            except AbsRaise:
                res = [('raises', [(x.kind, x.what, str(x.func), str(x.loc)) for x in self.w.ip.raised[n0:]])]
            return res + [('called', sorted(self.w.ip.called))]
        collect(c, text, explore(one, assume))

    def point(self, v, o, st):
        return [o.restrict(x) for x in self.w.vals(o.restrict(v), st)]


def c32():
    c = Check('C32', 'closest-point queries', 'every path of the simplex, clipping and support helpers on symbolic points, segments '
              'and point lists of any length: identities of the results and facts established on the path')
    H = Helpers(c)
    w = H.w
    names = 'ABC'
    P = syms('P', 2)
    pts = [syms(n, 2) for n in names]
    where = 'DiffContactHandler.get_closest'

    def area2():
        return cross(vsub(pts[1], pts[0]), vsub(pts[2], pts[0]))

    def closest(n):
        def judge(r, o, st):
            it = w.items(r, st)
            x = H.point(it[0], o, st)
            ids = []
            for i in w.items(o.restrict(it[1]), st):
                i = o.restrict(i)
                if not (isinstance(i, R) and i.const() is not None):
                    raise Imprecise('simplex index of unknown value')
                ids.append(int(i.const()))
            text = '%d points' % n

            def bad(key, msg, exp=None, found=None):
                return [('viol', '%d:%s' % (n, key), where, '%s: %s' % (text, msg), exp, clip(found))]
            if len(set(ids)) != len(ids) or not set(ids) <= set(range(n)) or not ids:
                return bad('ids', 'the vertices returned are not distinct vertices of the simplex', None, ids)
            others = [k for k in range(n) if k not in ids]
            if len(ids) == 1:
                A = pts[ids[0]]
                if not eqv(x, A):
                    return bad('vertex', 'the point returned is not the vertex named', A, x)
                for k in others:
                    e = vsub(pts[k], A)
                    if not nonneg_fact(o, neg(dot(vsub(P, A), e)), dot(e, e)):
                        return bad('vertex region', 'a vertex is returned although the query point may be closer to the edge to another vertex', None, clip(lt0_facts(o)))
                return [('ok', '%s: closest vertex' % text)]
            if len(ids) == 2:
                A, B = pts[ids[0]], pts[ids[1]]
                e = vsub(B, A)
                if not eq(cross(vsub(x, A), e), ZERO):
                    return bad('segment', 'the point returned is not on the line of the two vertices named', None, x)
                if not eq(dot(vsub(P, x), e), ZERO):
                    return bad('projection', 'the point returned is not the point of the segment closest to the query point', None, x)
                for z, t in ((dot(vsub(x, A), e), 'first'), (dot(vsub(B, x), e), 'second')):
                    if not nonneg_fact(o, U(z), dot(e, e)):
                        return bad('beyond', 'the point returned may lie beyond the %s vertex named' % t, None, clip(lt0_facts(o)))
                for k in others:
                    z = div(mul(cross(e, vsub(P, A)), cross(e, vsub(pts[k], A))), mul(area2(), area2()))
                    if not nonneg_fact(o, neg(z), ONE):
                        return bad('side', 'an edge is returned although the query point may be on the inner side of it', None, clip(lt0_facts(o)))
                return [('ok', '%s: closest point of an edge' % text)]
            if not eqv(x, P):
                return bad('inside', 'with all three vertices named the point returned is not the query point', P, x)
            for k in range(3):
                A, B, Cc = pts[(k + 1) % 3], pts[(k + 2) % 3], pts[k]
                z = div(cross(vsub(B, A), vsub(P, A)), cross(vsub(B, A), vsub(Cc, A)))
                if not nonneg_fact(o, z, ONE):
                    return bad('inside', 'all three vertices are named although the query point may lie outside the triangle', None, clip(lt0_facts(o)))
            return [('ok', '%s: inside' % text)]
        H.explore(c, '%d points' % n, 'get_closest', [w.vec('P', 2), w.lst([w.vec(names[k], 2) for k in range(n)])], judge)
    for n in (1, 2, 3):
        c.guard('closest of %d points' % n, closest, n)

    def bary(n):
        where = 'DiffContactHandler.get_barycentric_coords'

        def judge(r, o, st):
            if isinstance(r, TupV):
                u = [y for x in r.items for y in H.point(x, o, st)]
            else:
                u = H.point(r, o, st)
            if len(u) != n:
                return [('viol', 'bary%d:count' % n, where, '%d barycentric coordinates of %d points' % (len(u), n), n, len(u))]
            s = ZERO
            for v in u:
                s = add(s, v)
            if not eq(s, ONE):
                return [('viol', 'bary%d:sum' % n, where, 'the barycentric coordinates of %d points do not sum to one' % n, 1, clip(s))]
            x = [ZERO, ZERO]
            for v, p in zip(u, pts):
                x = vadd(x, [mul(v, z) for z in p])
            d = vsub(P, x)
            if n == 2:
                good = eq(dot(d, vsub(pts[1], pts[0])), ZERO)
            else:
                good = eqv(d, [ZERO, ZERO])
            if not good:
                return [('viol', 'bary%d:point' % n, where, 'the barycentric coordinates of %d points do not reproduce the point' % n, None, clip(u))]
            return [('ok', 'barycentric coordinates of %d points' % n)]
        H.explore(c, 'barycentric %d' % n, 'get_barycentric_coords', [w.vec('P', 2), w.lst([w.vec(names[k], 2) for k in range(n)])], judge)
    for n in (2, 3):
        c.guard('barycentric coordinates of %d points' % n, bary, n)

    def clipping():
        where = 'DiffContactHandler.clip_segment_to_line'
        A, B, n, off = pts[0], pts[1], syms('n', 2), S('off')
        d = [add(dot(n, A), off), add(dot(n, B), off)]

        def sign(o, x):
            """True: x >= 0 known, False: x <= 0 known (strictly negative or zero)"""
            p, m = known_lt0(o, x), known_lt0(o, neg(x))
            return True if p is False or m is True else False if p is True or m is False else None

        def judge(r, o, st):
            out = [H.point(v, o, st) for v in w.items(r, st)]
            s = [sign(o, x) for x in d]
            strict = [known_lt0(o, x) is True for x in d]
            seen = []
            for x in out:
                k = [k for k in (0, 1) if eqv(x, pts[k])]
                if k:
                    if s[k[0]] is not True:
                        return [('viol', 'clip:behind', where, 'an end point behind the line is kept', None, None)]
                    seen.append(k[0])
                    continue
                if not eq(cross(vsub(x, A), vsub(B, A)), ZERO):
                    return [('viol', 'clip:segment', where, 'a point returned is not on the line of the segment', None, clip(x))]
                if not eq(add(dot(n, x), off), ZERO):
                    return [('viol', 'clip:line', where, 'a cut point is not on the clip line', None, clip(x))]
                if not (s[0] is not None and s[1] is not None and s[0] != s[1] and any(strict)):
                    return [('viol', 'clip:extrapolated', where, 'a cut point is returned although the end points may be on the same side of the line', None, clip(lt0_facts(o)))]
                seen.append('cut')
            for k in (0, 1):
                if s[k] is not False and k not in seen and not strict[k]:
                    return [('viol', 'clip:lost', where, 'an end point in front of the line is dropped', None, clip(lt0_facts(o)))]
            if any(strict) and not all(strict) and 'cut' not in seen:
                return [('viol', 'clip:nocut', where, 'a segment that crosses the line is not cut', None, clip(lt0_facts(o)))]
            if len(set(seen)) < len(seen):
                return [('viol', 'clip:twice', where, 'a point is returned twice', None, seen)]
            return [('ok', 'clipping: %s' % seen)]
        H.explore(c, 'clipping', 'clip_segment_to_line', [w.lst([w.vec('A', 2), w.vec('B', 2)]), w.vec('n', 2), w.sc('off')], judge)
    c.guard('clipping', clipping)

    def support():
        where = 'DiffContactHandler.get_support'
        symhull(w, 'h')
        verts = w.ip.sym_new(w.st, w.ip.sym_list(('verts', 'h'), w.vec('proto', 2), w.st.heap, w.st, nverts('h')))
        D = syms('D', 2)

        def judge(r, o, st):
            it = w.items(r, st)
            x, i = H.point(it[0], o, st), o.restrict(it[1])
            if not eqv(x, vert('h', i)):
                return [('viol', 'support:index', where, 'the index returned is not that of the point returned', vert('h', i), clip(x))]
            a = atom_of(i)
            d = support_dir(o, a, 'h') if a is not None else None
            if d is None:
                return [('viol', 'support:extreme', where, 'the point returned is not the extreme one in any direction', None, clip(i))]
            if not same_dir(d, D):
                return [('viol', 'support:direction', where, 'the point returned is extreme in another direction', D, clip(d))]
            return [('ok', 'support point')]
        H.explore(c, 'support', 'get_support', [verts, w.vec('D', 2)], judge)
    c.guard('support', support)
    return c.finish()


CHECKS = {'C17': c17, 'C18': c18, 'C19': c19, 'C32': c32}
