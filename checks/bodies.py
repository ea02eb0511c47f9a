"""C01 - C05: bodies and forces."""
from sa.phys import *
from sa.report import Check

t_ = S('t')
t0 = Atom('sym', 't')
FAMILIES = {
    'quadrilaterals': ([(0, 0), (4, 1), (t_, 5), (1, 3)], {t0: Fraction(3)}),
    'pentagons': ([(0, 0), (3, -1), (5, 2), (t_, 5), (-1, 3)], {t0: Fraction(3)}),
    'hexagons': ([(2, 0), (t_, 3), (0, 4), (-2, 3), (-4, 1), (0, -1)], {t0: Fraction(2)}),
    'shifted triangles': ([(10, 11), (14, t_), (12, 15)], {t0: Fraction(12)}),
}


def fam(w, name):
    vs, env = FAMILIES[name]
    return w.lst([w.ten((2,), list(x)) for x in vs]), [[RR(a), RR(b)] for a, b in vs], env


def poly_area2(vs):
    s = ZERO
    for i in range(len(vs)):
        s = add(s, cross(vs[i], vs[(i + 1) % len(vs)]))
    return s


def poly_centroid(vs):
    n = [ZERO, ZERO]
    for i in range(len(vs)):
        a, b = vs[i], vs[(i + 1) % len(vs)]
        n = vadd(n, vscale(cross(a, b), vadd(a, b)))
    return [div(x, mul(R.c(3), poly_area2(vs))) for x in n]


def poly_inertia(m, vs):
    """about the origin of vs"""
    num, den = ZERO, ZERO
    for i in range(len(vs)):
        a, b = vs[i], vs[(i + 1) % len(vs)]
        c = cross(a, b)
        num = add(num, mul(c, add(add(dot(a, a), dot(a, b)), dot(b, b))))
        den = add(den, c)
    return div(mul(m, num), mul(R.c(6), den))


def diag3(i, m):
    return [i, ZERO, ZERO, ZERO, m, ZERO, ZERO, ZERO, m]


TRI = {Atom('sym', 'a.u0', 0): 0, Atom('sym', 'a.u0', 1): 0, Atom('sym', 'a.u1', 0): 4, Atom('sym', 'a.u1', 1): 1,
       Atom('sym', 'a.u2', 0): 1, Atom('sym', 'a.u2', 1): 3}
TRI = {k: Fraction(v) for k, v in TRI.items()}


# =============================================================== C01
def c01():
    c = Check('C01', 'mass and inertia', 'value numbering of the mass matrix built by every body constructor, '
              'compared with the closed form of the uniform solid for symbolic sizes and masses')

    def mass_forms(w):
        return [('tensor mass', w.sc('a.m')), ('number mass', S('a.m'))]

    def one(name, build, spec, env=None):
        for k in range(2):
            w = W(c)
            lab, m = mass_forms(w)[k]
            text = '%s, %s' % (name, lab)

            def run():
                b = build(w, m)
                M = w.attr(b, 'M')
                sh = w.shape(M)
                where = site(w, b, 'ang_inertia')
                c.eq(sh == (3, 3), text + ': M is 3x3', name + ':shape', where, 'mass matrix has shape %r' % (sh,))
                got = w.vals(M)
                exp = diag3(spec(w, b), S('a.m'))
                e = env
                if e is not None:
                    got = [resolve(x, e) for x in got]
                    exp = [resolve(x, e) for x in exp]
                d = path_eq(got, exp)
                c.eq(d is None, text + ': M = diag(I, m, m)', name + ':M', where,
                     '%s: mass matrix differs from the uniform solid (%s)' % (name, d and d[0]), d and d[1], d and d[2])
            c.guard(text, run)
            w.done()
    half = R.c(Fraction(1, 2))
    for pos3 in (False, True):
        one('Circle/%d' % (3 if pos3 else 2),
            lambda w, m: w.circle('a', pos3, mass=m), lambda w, b: mul(mul(half, S('a.m')), power(S('a.r'), 2)))
        one('Rect/%d' % (3 if pos3 else 2),
            lambda w, m: w.rect('a', pos3, mass=m),
            lambda w, b: div(mul(S('a.m'), add(power(S('a.d', 0), 2), power(S('a.d', 1), 2))), R.c(12)))

    def tri(w, b):
        vs = [syms('a.u%d' % i, 2) for i in range(3)]
        g = poly_centroid(vs)
        return poly_inertia(S('a.m'), [vsub(v, g) for v in vs])
    one('Hull of 3 free vertices', lambda w, m: w.hull('a', 3, mass=m), tri, TRI)
    for n in FAMILIES:
        def spec(w, b, n=n):
            vs = [[RR(x), RR(y)] for x, y in FAMILIES[n][0]]
            g = poly_centroid(vs)
            return poly_inertia(S('a.m'), [vsub(v, g) for v in vs])
        one('Hull, ' + n, lambda w, m, n=n: w.new('Hull', w.vec('a.ref', 2), fam(w, n)[0], vel=w.vec('a.v', 3), mass=m), spec,
            FAMILIES[n][1])
    c.assumptions.append('hulls: all triangles, and one-parameter families of irregular polygons with 4-6 vertices; '
                         'edge-wise code is uniform in the number of vertices')
    return c.finish()


# =============================================================== C02
def c02():
    c = Check('C02', 'placement', 'value numbering of positions and vertices after construction; the constructor\'s '
              'rejection condition is extracted as the path condition of its exceptional exits')

    def posvel(kind, pl, vl):
        name = '%s pos%d vel%d' % (kind, pl, vl)
        w = W(c)

        def run():
            kw = {'vel': w.vec('a.v', vl)}
            if kind == 'Circle':
                b = w.circle('a', pl == 3, **kw)
            elif kind == 'Rect':
                b = w.rect('a', pl == 3, **kw)
            else:
                b = w.hull('a', 3, **kw)
            p = w.vals(w.attr(b, 'p'))
            if kind == 'Hull':
                g = poly_centroid([syms('a.u%d' % i, 2) for i in range(3)])
                exp = [ZERO] + vadd(syms('a.ref', 2), g)
            else:
                exp = syms('a.p', 3) if pl == 3 else [ZERO] + syms('a.p', 2)
            d = path_eq(p, exp)
            c.eq(d is None, name + ': p', name + ':p', site(w, b, 'p'), '%s: initial pose wrong (%s)' % (name, d and d[0]),
                 d and d[1], d and d[2])
            v = w.vals(w.attr(b, 'v'))
            exp = syms('a.v', 3) if vl == 3 else [ZERO] + syms('a.v', 2)
            d = path_eq(v, exp)
            c.eq(d is None, name + ': v', name + ':v', site(w, b, 'v'), '%s: initial velocity wrong (%s)' % (name, d and d[0]),
                 d and d[1], d and d[2])
            for f, k in (('pos', slice(1, 3)), ('rot', slice(0, 1))):
                d = path_eq(w.vals(w.attr(b, f)), p[k])
                c.eq(d is None, '%s: %s is part of p' % (name, f), '%s:%s' % (name, f), site(w, b, f),
                     '%s: %s is not the matching part of the pose' % (name, f), d and d[1], d and d[2])
            if kind == 'Rect':
                h = [div(S('a.d', 0), R.c(2)), div(S('a.d', 1), R.c(2))]
                corners = [[h[0], h[1]], [neg(h[0]), h[1]], [neg(h[0]), neg(h[1])], [h[0], neg(h[1])]]
                th = S('a.p', 0) if pl == 3 else ZERO
                rect_corners(w, b, name, corners, th)
        c.guard(name, run)
        w.done()

    def rect_corners(w, b, name, corners, th):
        vs = [w.vals(v) for v in w.items(w.attr(b, 'verts'))]
        if not c.eq(len(vs) == 4, name + ': four corners', name + ':corners', site(w, b, 'verts'),
                    '%s: %d corners' % (name, len(vs))):
            return
        exp = [rot2(th, x) for x in corners]
        # any starting corner, same cyclic direction
        bad = None
        for s in range(4):
            bad = None
            for i in range(4):
                d = path_eq(vs[i], exp[(i + s) % 4])
                if d:
                    bad = d
                    break
            if bad is None:
                break
        c.eq(bad is None, name + ': corners', name + ':verts', site(w, b, 'verts'),
             '%s: corners are not the turned half extents in order' % name, bad and bad[1], bad and bad[2])

    for kind, pls in (('Circle', (2, 3)), ('Rect', (2, 3)), ('Hull', (2,))):
        for pl in pls:
            for vl in (2, 3):
                posvel(kind, pl, vl)

    def hullverts(name, make, vs, env):
        w = W(c)

        def run():
            b = make(w)
            p = [resolve(x, env) for x in w.vals(w.attr(b, 'pos'))]
            got = [w.vals(v) for v in w.items(w.attr(b, 'verts'))]
            if not c.eq(len(got) == len(vs), name + ': vertex count', name + ':n', site(w, b, 'verts'), '%s: %d vertices stored of %d' % (name, len(got), len(vs))):
                return
            g = poly_centroid(vs)
            exp = vadd(syms('a.ref', 2), g)
            d = path_eq(p, [resolve(x, env) for x in exp])
            c.eq(d is None, name + ': position at centroid', name + ':centroid', site(w, b, 'p'),
                 '%s: position is not reference point plus area centroid' % name, d and d[1], d and d[2])
            for i in range(len(vs)):
                d = path_eq([resolve(x, env) for x in vadd(p, got[i])], [resolve(x, env) for x in vadd(syms('a.ref', 2), vs[i])])
                c.eq(d is None, '%s: vertex %d in place' % (name, i), '%s:vert' % name, site(w, b, 'verts'),
                     '%s: position plus vertex %d is not the vertex passed in' % (name, i), d and d[1], d and d[2])
        c.guard(name, run)
        w.done()
    hullverts('Hull of 3 free vertices', lambda w: w.hull('a', 3), [syms('a.u%d' % i, 2) for i in range(3)], TRI)
    for n, (vs, env) in FAMILIES.items():
        hullverts('Hull, ' + n, lambda w, n=n: w.new('Hull', w.vec('a.ref', 2), fam(w, n)[0]), [[RR(a), RR(b)] for a, b in vs], env)

    # rejection
    for k in (0, 1, 2):
        w = W(c)
        name = 'Hull of %d vertices' % k

        def run():
            try:
                w.hull('a', k)
                ok = w.st.dead
            except (Imprecise, Exception) as e:
                ok = any(r.kind in ('raise', 'assert', 'index') for r in w.ip.raised)
                if not ok:
                    raise
            g = w.st.guard
            c.eq(ok or g is False, name + ' rejected', name, 'Hull.__init__', '%s is accepted' % name)
        c.guard(name, run)
        w.done()
    for name, vs in [('Hull of 3 free vertices', [syms('a.u%d' % i, 2) for i in range(3)])] + \
            [('Hull, ' + n, [[RR(a), RR(b)] for a, b in v[0]]) for n, v in FAMILIES.items()]:
        w = W(c)

        def run():
            if name.startswith('Hull of'):
                w.hull('a', 3)
            else:
                w.new('Hull', w.vec('a.ref', 2), fam(w, name[6:])[0])
            exp = c_lt(ZERO, poly_area2(vs))
            g = w.st.guard
            ok = g == exp or lift(lambda x, y: x == y, g, exp) is True
            c.eq(ok, name + ': accepted iff counter-clockwise', name + ':winding', 'Hull.__init__',
                 '%s: accepted under a condition other than positive signed area' % name, exp, g)
        c.guard(name + ' winding', run)
        w.done()
    return c.finish()


# =============================================================== C03
def same_quat(q, h):
    """quaternion (w,x,y,z) turns by 2h modulo a half turn."""
    w_, x, y, z = q
    s, k = mk_sin(h), mk_cos(h)
    c1, s1 = sub(mul(w_, w_), mul(z, z)), mul(R.c(2), mul(w_, z))
    c2, s2 = sub(mul(k, k), mul(s, s)), mul(R.c(2), mul(s, k))
    if path_eq([x, y], [ZERO, ZERO]):
        return False
    return path_eq([c1, s1], [c2, s2]) is None or path_eq([neg(c1), neg(s1)], [c2, s2]) is None


def geom_ok(c, w, b, kind, name):
    g = w.attr(b, 'geom')
    p = w.vals(w.attr(b, 'p'))
    gp = w.st.heap.get((g.addr, '%pos'))
    xs = [undet(x) for x in gp.items] if isinstance(gp, TupV) else None
    if xs is None:
        c.undecided(name + ': geometry position not tracked')
        return
    d = path_eq(xs[:2], p[1:]) or path_eq(xs[2:], [ZERO])
    c.eq(d is None, name + ': geometry at the body', name + ':geompos', w.ip.wsite.get((g.addr, '%pos'), kind),
         '%s: collision geometry is not at the body position' % name, d and d[1], d and d[2])
    if kind == 'Rect':
        q = w.st.heap.get((g.addr, '%quat'))
        qs = [undet(x) for x in q.items] if isinstance(q, TupV) else None
        if qs is None:
            c.undecided(name + ': geometry orientation not tracked')
            return
        ok = same_quat(qs, div(p[0], R.c(2)))
        c.eq(ok, name + ': box turned with the body', name + ':geomrot', w.ip.wsite.get((g.addr, '%quat'), kind),
             '%s: box geometry is not turned with the body' % name, 'angle %r' % p[0], qs)


def parts_ok(c, w, b, name):
    p = w.vals(w.attr(b, 'p'))
    for f, k in (('pos', slice(1, 3)), ('rot', slice(0, 1))):
        d = path_eq(w.vals(w.attr(b, f)), p[k])
        c.eq(d is None, '%s: %s matches p' % (name, f), '%s:%s' % (name, f), site(w, b, f),
             '%s: %s is not the matching part of the pose' % (name, f), d and d[1], d and d[2])


def bodies(kind):
    if kind == 'Hull':
        return [('Hull3', lambda w: w.hull('a', 3)),
                ('Hull5', lambda w: w.new('Hull', w.vec('a.ref', 2), fam(w, 'pentagons')[0], vel=w.vec('a.v', 3)))]
    return [(kind + '/2', lambda w: w.body(kind, 'a', pos3=False)), (kind + '/3', lambda w: w.body(kind, 'a', pos3=True))]


def free_verts(w, b, n=None):
    """Replace a hull's vertices by free symbols (an arbitrary state)."""
    ref = w.attr(b, 'verts')
    k = len(w.items(ref))
    vs = [w.vec('b.w%d' % i, 2) for i in range(k)]
    w.st.heap[(ref.addr, 'c')] = LV(vs)


def c03():
    c = Check('C03', 'pose coherence', 'heap relation between pose, its views, the vertices and the collision '
              'geometry after every pose-changing method of every body class')
    for kind in ('Circle', 'Rect', 'Hull'):
        for name, build in bodies(kind):
            for act in ('construct', 'set_p', 'set_p twice', 'move', 'set_p to the same angle'):
                w = W(c)
                text = name + ' ' + act

                def run():
                    b = build(w)
                    if act != 'construct':
                        if kind == 'Hull':
                            free_verts(w, b)
                        steps = 2 if act.endswith('twice') else 1
                        for s in range(steps):
                            old_p = w.vals(w.attr(b, 'p'))
                            old_v = [w.vals(v) for v in w.items(w.attr(b, 'verts'))] if kind != 'Circle' else []
                            if act == 'move':
                                w.call(b, 'move', S('dt'))
                                target = None
                            else:
                                new = w.vec('q%d' % s, 3)
                                if act.endswith('angle'):
                                    new = w.ten((3,), [old_p[0], S('q', 1), S('q', 2)])
                                target = w.vals(new)
                                w.call(b, 'set_p', new)
                            p = w.vals(w.attr(b, 'p'))
                            if target is not None:
                                d = path_eq(p, target)
                                c.eq(d is None, text + ': pose set', text + ':p', site(w, b, 'p'),
                                     '%s: pose is not the one set' % text, d and d[1], d and d[2])
                            if kind != 'Circle':
                                nv = [w.vals(v) for v in w.items(w.attr(b, 'verts'))]
                                th = sub(p[0], old_p[0])
                                for i, (x, y) in enumerate(zip(nv, old_v)):
                                    d = path_eq(x, rot2(th, y))
                                    c.eq(d is None, '%s: vertex %d turned with the body' % (text, i), text + ':verts',
                                         site(w, b, 'verts') if (b.addr, 'verts') in w.ip.wsite else kind,
                                         '%s: vertex %d is not turned by the change of angle' % (text, i), d and d[1], d and d[2])
                                c.eq(len(nv) == len(old_v), text + ': same vertices', text + ':nverts', kind, '%s: number of vertices changed' % text)
                    parts_ok(c, w, b, text)
                    geom_ok(c, w, b, kind, text)
                c.guard(text, run)
                w.done()
    return c.finish()


# =============================================================== C04
MOVED = {'p', 'pos', 'rot', 'verts', 'last_sat_idx'}


def snapshot(w, b, skip=()):
    out = {}
    for (a, f), v in w.st.heap.items():
        if a == b.addr and f not in skip:
            out[f] = deep(w, v)
    return out


def deep(w, v, d=0):
    if isinstance(v, DD):
        try:
            return ('num', tuple(w.vals(v)))
        except Imprecise:
            return v
    if isinstance(v, Ten):
        return ('ten', v.shape, tuple(w.vals(v)))
    if isinstance(v, R):
        return ('num', (undet(v),))
    if isinstance(v, Ref) and d < 5:
        cc = w.st.heap.get((v.addr, 'c'))
        if isinstance(cc, LV):
            return (v.kind,) + tuple(deep(w, x, d + 1) for x in cc.items)
        if isinstance(cc, DV):
            return (v.kind,) + tuple((deep(w, k, d + 1), deep(w, x, d + 1)) for k, x in cc.items)
        return cc
    if isinstance(v, TupV):
        return ('tup',) + tuple(deep(w, x, d + 1) for x in v.items)
    return v


def c04():
    c = Check('C04', 'moving', 'transfer function of move() for every body class: pose plus velocity times dt, all other fields unchanged')
    for kind in ('Circle', 'Rect', 'Hull'):
        for name, build in bodies(kind):
            for dtk in ('number', 'tensor'):
                w = W(c)
                text = '%s.move(%s)' % (name, dtk)

                def run():
                    b = build(w)
                    w.setattr(b, 'v', w.vec('a.V', 3))
                    if kind == 'Hull':
                        free_verts(w, b)
                    before = snapshot(w, b, MOVED)
                    p0, v0 = w.vals(w.attr(b, 'p')), w.vals(w.attr(b, 'v'))
                    w.call(b, 'move', S('dt') if dtk == 'number' else w.sc('dt'))
                    p1 = w.vals(w.attr(b, 'p'))
                    exp = [add(x, mul(S('dt'), y)) for x, y in zip(p0, v0)]
                    d = path_eq(p1, exp)
                    c.eq(d is None, text + ': p + dt v', text + ':p', site(w, b, 'p'),
                         '%s: pose is not advanced by velocity times dt (%s)' % (text, d and d[0]), d and d[1], d and d[2])
                    after = snapshot(w, b, MOVED)
                    for f in before:
                        c.eq(before[f] == after.get(f), '%s: %s unchanged' % (text, f), '%s:%s' % (text, f), site(w, b, f),
                             '%s changes %s' % (text, f), before[f], after.get(f))
                c.guard(text, run)
                w.done()
    return c.finish()


# =============================================================== C05
def c05():
    c = Check('C05', 'forces', 'value numbering of apply_forces over 0..3 attached forces of every force class')
    t = S('t')

    def mkforce(w, k):
        fn = PyFn(lambda ip, st, args, kw, k=k: lib.mk(ip, st, (3,), [R.atom(Atom('F', k, j, args[0])) for j in range(3)], 'B'), 'force%d' % k)
        return w.new('ExternalForce', fn, S('k%d' % k))

    def ext_val(k, t=t):
        return [mul(R.atom(Atom('F', k, j, t)), S('k%d' % k)) for j in range(3)]

    def grav(g):
        return [ZERO, ZERO, mul(S('a.m'), g)]
    combos = [('none', []), ('one external', ['e0']), ('gravity', ['g']), ('default gravity', ['G']),
              ('two external', ['e0', 'e1']), ('gravity and two', ['g', 'e0', 'e1']), ('gravity last', ['e0', 'g'])]
    for kind in ('Circle', 'Rect', 'Hull'):
        for label, fs in combos:
            w = W(c)
            text = '%s with %s' % (kind, label)

            def run():
                b = w.body(kind, 'a')
                exp = [ZERO] * 3
                for f in fs:
                    if f == 'g':
                        o, x = w.new('Gravity', S('g')), grav(S('g'))
                    elif f == 'G':
                        o, x = w.new('Gravity'), grav(R.c(10))
                    else:
                        o, x = mkforce(w, int(f[1])), ext_val(int(f[1]))
                    w.call(b, 'add_force', o)
                    exp = vadd(exp, x)
                r = w.call(b, 'apply_forces', t)
                d = path_eq(w.vals(r), exp)
                c.eq(d is None, text, text, 'Body.apply_forces', '%s: net force wrong (%s)' % (text, d and d[0]), d and d[1], d and d[2])
                c.eq(w.shape(r) == (3,), text + ' shape', text + ':shape', 'Body.apply_forces', '%s: force of shape %r' % (text, w.shape(r)))
                # the same question again, later, after the body changed, and after another force was attached
                t2 = S('t2')
                exp2 = [ZERO] * 3
                for f in fs:
                    exp2 = vadd(exp2, grav(S('g')) if f == 'g' else grav(R.c(10)) if f == 'G' else ext_val(int(f[1]), t2))
                for what, tt, ex in (('asked again', t, exp), ('asked at another time', t2, exp2), ('asked at the first time again', t, exp)):
                    d = path_eq(w.vals(w.call(b, 'apply_forces', tt)), ex)
                    c.eq(d is None, '%s, %s' % (text, what), text + ':again', 'Body.apply_forces', '%s: net force %s is wrong (%s)' % (text, what, d and d[0]), d and d[1], d and d[2])
                w.call(b, 'move', S('dt'))
                w.setattr(b, 'v', w.vec('a.V2', 3))
                d = path_eq(w.vals(w.call(b, 'apply_forces', t)), exp)
                c.eq(d is None, '%s, after a motion' % text, text + ':moved', 'Body.apply_forces', '%s: net force after a motion is wrong (%s)' % (text, d and d[0]), d and d[1], d and d[2])
                for k in (5, 6):
                    w.call(b, 'add_force', mkforce(w, k))
                    exp = vadd(exp, ext_val(k))
                    d = path_eq(w.vals(w.call(b, 'apply_forces', t)), exp)
                    c.eq(d is None, '%s, force %d attached later' % (text, k), text + ':added', 'Body.apply_forces', '%s: a force attached later is not in the net force (%s)' % (text, d and d[0]), d and d[1], d and d[2])
            c.guard(text, run)
            w.done()
    tenth = R.c(Fraction(1, 10))
    for fname, vec, imp in (('down_force', [0, 0, 1], False), ('vert_impulse', [0, 0, 1], True), ('hor_impulse', [0, 1, 0], True),
                            ('rot_impulse', [1, 0, 0], True)):
        w = W(c)

        def run():
            r = w.vals(w.fn('lcp_physics.physics.forces', fname, t))
            exp = [RR(x) for x in vec]
            if imp:
                exp = [ite(c_lt(t, tenth), x, ZERO) for x in exp]
            d = path_eq(r, exp)
            c.eq(d is None, fname, fname, 'forces.%s' % fname, '%s: not the declared impulse (%s)' % (fname, d and d[0]), d and d[1], d and d[2])
            # through a body, with a multiplier
            b = w.body('Circle', 'a')
            f = w.new('ExternalForce', w.get('lcp_physics.physics.forces', fname), S('k'))
            w.call(b, 'add_force', f)
            r = w.vals(w.call(b, 'apply_forces', t))
            d = path_eq(r, [mul(x, S('k')) for x in exp])
            c.eq(d is None, fname + ' times multiplier', fname + ':mult', 'ExternalForce.force', '%s is not scaled by its multiplier' % fname, d and d[1], d and d[2])
        c.guard(fname, run)
        w.done()

    # default multiplier and default function
    w = W(c)

    def run():
        b = w.body('Circle', 'a')
        w.call(b, 'add_force', w.new('ExternalForce'))
        d = path_eq(w.vals(w.call(b, 'apply_forces', t)), [ZERO, ZERO, R.c(100)])
        c.eq(d is None, 'default external force', 'default', 'ExternalForce.__init__', 'default external force is not 100 downwards', d and d[1], d and d[2])
    c.guard('default external force', run)
    w.done()

    # world force vector in body order
    w = W(c)

    def run():
        bs, exp = [], []
        for i, kind in enumerate(('Circle', 'Rect', 'Circle')):
            b = w.body(kind, 'b%d' % i)
            if i != 1:
                w.call(b, 'add_force', mkforce(w, i))
                exp += ext_val(i)
            else:
                exp += [ZERO] * 3
            bs.append(b)
        world = w.new('World', w.lst(bs))
        d = path_eq(w.vals(w.call(world, 'apply_forces', t)), exp)
        c.eq(d is None, 'world force vector', 'world', 'World.apply_forces', 'world force vector is not the bodies\' forces in order (%s)' % (d and d[0]), d and d[1], d and d[2])
        w.call(bs[1], 'add_force', mkforce(w, 7))
        exp[3:6] = ext_val(7)
        d = path_eq(w.vals(w.call(world, 'apply_forces', t)), exp)
        c.eq(d is None, 'world force vector again', 'world again', 'World.apply_forces', 'world force vector misses a force attached later (%s)' % (d and d[0]), d and d[1], d and d[2])
    c.guard('world force vector', run)
    w.done()
    return c.finish()


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05}
