"""C08 - C10: system matrices of a world."""
from sa.phys import *
from sa.report import Check
from checks.joints import make as mkjoint, expected_rows, rows_match, found_rows


def block(mat, cols, r0, r1, c0, c1):
    return [[mat[r * cols + k] for k in range(c0, c1)] for r in range(r0, r1)]


def world3(w, joints=(), kinds=('Circle', 'Rect', 'Circle'), **kw):
    bs = [w.body(k, 'b%d' % i) for i, k in enumerate(kinds)]
    js = [j(w, bs) for j in joints]
    kw.setdefault('constraints', w.lst(js))
    return w.new('World', w.lst(bs), **kw), bs, js


J2 = lambda a, b: (lambda w, bs: w.new('Joint', bs[a], bs[b], w.vec('anc%d%d' % (a, b), 2)), a, b)
J1 = lambda a: (lambda w, bs: w.new('Joint', bs[a], None, w.vec('anc%d' % a, 2)), a, None)
F = lambda a, b: (lambda w, bs: w.new('FixedJoint', bs[a], bs[b]), a, b)
C = lambda k, a: (lambda w, bs: w.new(k, bs[a]), a, None)

SCENES = [
    ('no joints', []),
    ('one two-body joint', [J2(0, 1)]),
    ('joint listed the other way', [J2(2, 0)]),
    ('chain', [J2(0, 1), J2(1, 2)]),
    ('mixed', [C('YConstraint', 2), J2(2, 0), F(1, 2), C('TotalConstraint', 0), J1(1)]),
    ('several on one body', [C('XConstraint', 1), C('RotConstraint', 1), J1(1), F(1, 0)]),
    ('twice the same pair', [J2(0, 2), F(2, 0)]),
]


def c08():
    c = Check('C08', 'system assembly', 'block structure of Je() and M() extracted from symbolic worlds of three bodies with '
              'joints of every class on every body order; block by block comparison with the joints\' own J()')
    for name, js in SCENES:
        for phase in ('start', 'moved'):
            if phase == 'moved' and name in ('no joints', 'one two-body joint'):
                continue
            w = W(c)
            text = '%s (%s)' % (name, phase)

            def run():
                world, bs, jo = world3(w, [j[0] for j in js])
                if phase == 'moved':
                    for m in ('Je', 'M', 'get_v'):
                        w.call(world, m)
                    for b in bs:
                        w.call(b, 'move', S('dt'))
                    for j in jo:
                        w.call(j, 'move', S('dt'))
                    w.call(world, 'set_v', w.vec('mv', 9))
                Je = w.call(world, 'Je')
                n = sum(int(w.attr(j, 'num_constraints').const()) for j in jo)
                sh = w.shape(Je)
                where = 'World.Je'
                got_n = w.attr(world, 'num_constraints')
                c.eq(got_n == R.c(n), text + ': num_constraints', text + ':n', 'World.__init__',
                     '%s: num_constraints is not the sum of the joints\' counts' % text, n, got_n)
                if not c.eq(sh == (n, 9) or (n == 0 and sh[0] == 0), text + ': Je shape', text + ':shape', where,
                            '%s: Je has shape %r, expected %r' % (text, sh, (n, 9))):
                    return
                mat = w.vals(Je)
                row = 0
                exp = [ZERO] * (9 * n)
                for j, (_, a, b) in zip(jo, js):
                    rows, err = found_rows(w, w.call(j, 'J'))
                    if rows is None:
                        c.viol(text + ':J', where, err)
                        return
                    for r in rows:
                        for k in range(3):
                            exp[row * 9 + 3 * a + k] = r[k]
                            if b is not None:
                                exp[row * 9 + 3 * b + k] = r[3 + k]
                        row += 1
                d = path_eq(mat, exp)
                at = ''
                if d:
                    i = int(d[0].split()[1])
                    at = 'row %d column %d' % (i // 9, i % 9)
                c.eq(d is None, text + ': joint rows in their bodies\' columns', text + ':Je', where,
                     '%s: Je wrong at %s' % (text, at), d and d[1], d and d[2])
                M = w.call(world, 'M')
                exp = [ZERO] * 81
                for i, b in enumerate(bs):
                    m = w.vals(w.attr(b, 'M'))
                    for r in range(3):
                        for k in range(3):
                            exp[(3 * i + r) * 9 + 3 * i + k] = m[3 * r + k]
                c.eq(w.shape(M) == (9, 9), text + ': M shape', text + ':Mshape', 'World.M', '%s: M has shape %r' % (text, w.shape(M)))
                d = path_eq(w.vals(M), exp)
                c.eq(d is None, text + ': M block diagonal', text + ':M', site(w, world, '_M'),
                     '%s: M is not block diagonal with the bodies\' matrices (%s)' % (text, d and d[0]), d and d[1], d and d[2])
                v = w.vals(w.call(world, 'get_v'))
                exp = [x for b in bs for x in w.vals(w.attr(b, 'v'))]
                d = path_eq(v, exp)
                c.eq(d is None, text + ': get_v', text + ':v', 'World.get_v', '%s: velocity vector is not the bodies\' in order' % text, d and d[1], d and d[2])
                c.eq(len(v) == 9, text + ': get_v size', text + ':vn', 'World.get_v', '%s: velocity vector of %d entries' % (text, len(v)))
                nv = w.vec('nv', 9)
                w.call(world, 'set_v', nv)
                for i, b in enumerate(bs):
                    d = path_eq(w.vals(w.attr(b, 'v')), syms('nv', 9)[3 * i:3 * i + 3])
                    c.eq(d is None, '%s: set_v body %d' % (text, i), text + ':setv', site(w, b, 'v'), '%s: set_v gives body %d other entries' % (text, i), d and d[1], d and d[2])
                d = path_eq(w.vals(w.call(world, 'get_v')), syms('nv', 9))
                c.eq(d is None, text + ': set_v/get_v', text + ':setv2', 'World.set_v', '%s: get_v does not return what set_v stored' % text)
                w.call(world, 'set_p', w.vec('np', 9))
                for i, b in enumerate(bs):
                    d = path_eq(w.vals(w.attr(b, 'p')), syms('np', 9)[3 * i:3 * i + 3])
                    c.eq(d is None, '%s: set_p body %d' % (text, i), text + ':setp', site(w, b, 'p'), '%s: set_p gives body %d other entries' % (text, i), d and d[1], d and d[2])
            c.guard(text, run)
            w.done()
    return c.finish()


# ------------------------------------------------------------------ contacts
def contact(w, k, i1, i2, dt='B'):
    t = TupV([w.ten((2,), [S('n%d' % k, 0), S('n%d' % k, 1)], dt), w.ten((2,), syms('p%d' % k, 2), dt),
              w.ten((2,), syms('q%d' % k, 2), dt), w.ten((), [S('pen%d' % k)], dt)])
    return TupV([t, R.c(i1), R.c(i2)])


PAIRS = [('none', []), ('one', [(0, 1)]), ('two', [(0, 1), (2, 1)]), ('swapped', [(1, 0), (2, 0), (1, 2)]),
         ('repeated pair', [(0, 2), (0, 2)])]


def with_contacts(w, pairs, joints=(), dt='B', first=0, **kw):
    world, bs, js = world3(w, joints, **kw)
    w.setattr(world, 'contacts', w.lst([contact(w, k + first, a, b, dt) for k, (a, b) in enumerate(pairs)]))
    return world, bs, js


def c09():
    c = Check('C09', 'contact rows', 'value numbering of Jc() and Jf() for symbolic contacts between every ordered body pair, also after '
              'other contacts have been read')
    for name0, pairs in PAIRS:
      for phase in ('first', 'after other contacts'):
        w = W(c)
        name = name0 if phase == 'first' else '%s (%s)' % (name0, phase)

        def run():
            if phase == 'first':
                world, bs, _ = with_contacts(w, pairs)
            else:
                # the same number of contacts, read before, then other bodies and other points
                world, bs, _ = with_contacts(w, [((a + 1) % 3, (b + 1) % 3) for a, b in pairs], first=11)
                w.call(world, 'Jc'), w.call(world, 'Jf')
                w.setattr(world, 'contacts', w.lst([contact(w, k + 5, a, b) for k, (a, b) in enumerate(pairs)]))
                w.call(world, 'Jc'), w.call(world, 'Jf')
                w.setattr(world, 'contacts', w.lst([contact(w, k, a, b) for k, (a, b) in enumerate(pairs)]))
            nc = len(pairs)
            Jc, Jf = w.call(world, 'Jc'), w.call(world, 'Jf')
            if not c.eq(w.shape(Jc) == (nc, 9), name + ': Jc shape', name + ':Jc shape', 'World.Jc', '%s: Jc has shape %r' % (name, w.shape(Jc))):
                return
            if not c.eq(w.shape(Jf) == (2 * nc, 9), name + ': Jf shape', name + ':Jf shape', 'World.Jf', '%s: Jf has shape %r' % (name, w.shape(Jf))):
                return
            mc, mf = w.vals(Jc), w.vals(Jf)
            for k, (a, b) in enumerate(pairs):
                n, p, q = syms('n%d' % k, 2), syms('p%d' % k, 2), syms('q%d' % k, 2)

                def row(d):
                    e = [ZERO] * 9
                    e[3 * a:3 * a + 3] = [cross(p, d)] + d
                    e[3 * b:3 * b + 3] = [neg(cross(q, d)), neg(d[0]), neg(d[1])]
                    return e
                got = mc[9 * k:9 * k + 9]
                d = path_eq(got, row(n))
                c.eq(d is None, '%s: normal row %d' % (name, k), name + ':Jc', 'World.Jc',
                     '%s: normal row of contact %d (bodies %d,%d) wrong (%s)' % (name, k, a, b, d and d[0]), d and d[1], d and d[2])
                t = [n[1], neg(n[0])]
                r1, r2 = row(t), row([neg(x) for x in t])
                g1, g2 = mf[18 * k:18 * k + 9], mf[18 * k + 9:18 * k + 18]
                ok = (path_eq(g1, r1) is None and path_eq(g2, r2) is None) or (path_eq(g1, r2) is None and path_eq(g2, r1) is None)
                c.eq(ok, '%s: friction rows %d' % (name, k), name + ':Jf', 'World.Jf',
                     '%s: friction rows of contact %d are not an opposite pair along the tangent' % (name, k), [r1, r2], [g1, g2])
        c.guard(name, run)
        w.done()
    return c.finish()


def c10():
    c = Check('C10', 'contact material', 'value numbering of restitutions(), mu() and E() for symbolic coefficients')
    for name, pairs in PAIRS:
        w = W(c)

        def run():
            world, bs, _ = with_contacts(w, pairs)
            nc = len(pairs)
            for meth, coef, diag in (('restitutions', 'e', False), ('mu', 'mu', True)):
                r = w.call(world, meth)
                exp = [div(add(S('b%d.%s' % (a, coef)), S('b%d.%s' % (b, coef))), R.c(2)) for a, b in pairs]
                sh = (nc, nc) if diag else (nc,)
                if not c.eq(w.shape(r) == sh, '%s: %s shape' % (name, meth), '%s:%s shape' % (name, meth), 'World.' + meth,
                            '%s: %s() has shape %r' % (name, meth, w.shape(r))):
                    continue
                if diag:
                    exp = [exp[i] if i == k else ZERO for i in range(nc) for k in range(nc)]
                d = path_eq(w.vals(r), exp)
                c.eq(d is None, '%s: %s' % (name, meth), '%s:%s' % (name, meth), 'World.' + meth,
                     '%s: %s() is not the average of the two bodies\' coefficients per contact (%s)' % (name, meth, d and d[0]), d and d[1], d and d[2])
            E = w.call(world, 'E')
            c.eq(w.shape(E) == (2 * nc, nc), name + ': E shape', name + ':E shape', 'World.E', '%s: E() has shape %r' % (name, w.shape(E)))
            exp = [ONE if r // 2 == k else ZERO for r in range(2 * nc) for k in range(nc)]
            d = path_eq(w.vals(E), exp)
            c.eq(d is None, name + ': E', name + ':E', 'World.E', '%s: E() does not tie each friction direction to its own contact' % name, d and d[1], d and d[2])
            # a second query after the contacts changed must see the new contacts
            if nc:
                other = [((a + 1) % 3, (b + 1) % 3) for a, b in pairs]
                w.setattr(world, 'contacts', w.lst([contact(w, 20 + k, a, b) for k, (a, b) in enumerate(other)]))
                for meth, coef in (('restitutions', 'e'), ('mu', 'mu')):
                    exp = [div(add(S('b%d.%s' % (a, coef)), S('b%d.%s' % (b, coef))), R.c(2)) for a, b in other]
                    if meth == 'mu':
                        exp = [exp[i] if i == k else ZERO for i in range(nc) for k in range(nc)]
                    d = path_eq(w.vals(w.call(world, meth)), exp)
                    c.eq(d is None, '%s: %s after as many other contacts' % (name, meth), '%s:%s3' % (name, meth), 'World.' + meth,
                         '%s: %s() does not follow the contacts when their number stays the same' % (name, meth), d and d[1], d and d[2])
                w.setattr(world, 'contacts', w.lst([contact(w, 7, 2, 0)]))
                r = w.vals(w.call(world, 'mu'))
                d = path_eq(r, [div(add(S('b2.mu'), S('b0.mu')), R.c(2))])
                c.eq(d is None, name + ': mu after a contact change', name + ':mu2', 'World.mu', '%s: mu() does not follow the contacts' % name, d and d[1], d and d[2])
                r = w.vals(w.call(world, 'restitutions'))
                d = path_eq(r, [div(add(S('b2.e'), S('b0.e')), R.c(2))])
                c.eq(d is None, name + ': restitutions after a contact change', name + ':res2', 'World.restitutions', '%s: restitutions() does not follow the contacts' % name, d and d[1], d and d[2])
                r = w.vals(w.call(world, 'E'))
                d = path_eq(r, [ONE, ONE])
                c.eq(d is None, name + ': E after a contact change', name + ':E2', 'World.E', '%s: E() does not follow the contacts' % name, d and d[1], d and d[2])
        c.guard(name, run)
        w.done()
    # changed coefficients take effect
    w = W(c)

    def run():
        world, bs, _ = with_contacts(w, [(0, 1)])
        w.call(world, 'mu')
        w.call(world, 'restitutions')
        w.setattr(bs[0], 'fric_coeff', w.sc('newmu'))
        w.setattr(bs[0], 'restitution', w.sc('newe'))
        d = path_eq(w.vals(w.call(world, 'mu')), [div(add(S('newmu'), S('b1.mu')), R.c(2))])
        c.eq(d is None, 'mu follows the bodies', 'mu3', 'World.mu', 'mu() ignores a changed coefficient', d and d[1], d and d[2])
        d = path_eq(w.vals(w.call(world, 'restitutions')), [div(add(S('newe'), S('b1.e')), R.c(2))])
        c.eq(d is None, 'restitutions follow the bodies', 'res3', 'World.restitutions', 'restitutions() ignores a changed coefficient', d and d[1], d and d[2])
    c.guard('changed coefficients', run)
    w.done()
    return c.finish()


CHECKS = {'C08': c08, 'C09': c09, 'C10': c10}
