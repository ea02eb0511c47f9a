"""C20 - C22, C29 - C31, C34."""
from fractions import Fraction

import sa.terms as TT
from sa.phys import *
from sa.report import Check, clip
from sa.forks import explore
from sa.ident import identical
from checks.contacts import collect, known_lt0, top_atoms


def outcome(w, o, fn):
    """Run fn(state) on one path; the exceptions met become results."""
    n0 = len(w.ip.raised)
    st = w.st.clone()
    w.ip.oracle = o
    try:
        r = fn(st)
        if st.dead:
            raise AbsRaise()
        return r
    except AbsRaise:
        return [('raises', [(x.kind, x.what, str(x.func), str(x.loc)) for x in w.ip.raised[n0:]])]
    finally:
        w.ip.oracle = None


# ------------------------------------------------------------ C31
def c31():
    c = Check('C31', 'planar helpers', 'the helper functions of utils evaluated on symbolic arguments; identities over all values')
    U = 'lcp_physics.physics.utils'

    def session():
        w = W(c)
        w.st.guard = True
        return w

    def rotation():
        for shape in ((), (1,)):
            w = session()
            th = w.ten(shape, [S('th')])
            r = w.fn(U, 'rotation_matrix', th)
            m = w.vals(r)
            where = 'utils.rotation_matrix'
            if not c.eq(w.shape(r) == (2, 2), 'rotation matrix shape', 'rot:shape', where, 'the rotation matrix has shape %r' % (w.shape(r),)):
                return
            a, b, d, e = m
            for k, (x, y, t) in enumerate([(add(mul(a, a), mul(d, d)), ONE, 'first column of unit length'),
                                           (add(mul(b, b), mul(e, e)), ONE, 'second column of unit length'),
                                           (add(mul(a, b), mul(d, e)), ZERO, 'columns at right angles'),
                                           (sub(mul(a, e), mul(b, d)), ONE, 'unit determinant')]):
                c.eq(identical(x, y), 'rotation matrix: ' + t, 'rot:%d' % k, where, 'the rotation matrix does not have %s' % t, y, x)
            s, k = lift(mk_sin, S('th')), mk_cos(S('th'))
            c.eq(identical(a, k) and identical(d, s), 'rotation matrix: turns by the angle', 'rot:angle', where,
                 'the rotation matrix does not turn by the angle given', [k, s], [a, d])
            w.done()
    c.guard('rotation matrix', rotation)

    def polar():
        for positive in (None, True, False):
            w = session()
            v = w.vec('v', 2)
            kw = {} if positive is None else {'positive': positive}

            def judge(o):
                def go(st):
                    r = w.fn(U, 'cart_to_polar', v, st=st, **kw)
                    it = w.items(o.restrict(r), st)
                    back = w.fn(U, 'polar_to_cart', it[0], it[1], st=st)
                    x = [o.restrict(z) for z in w.vals(o.restrict(back), st)]
                    rr = [o.restrict(z) for z in w.vals(o.restrict(it[0]), st)]
                    if len(x) != 2 or not all(identical(p, q) for p, q in zip(x, syms('v', 2))):
                        return [('viol', 'polar:inverse', 'utils.cart_to_polar/polar_to_cart',
                                 'converting to polar coordinates and back does not give the vector back', syms('v', 2), clip(x))]
                    if len(rr) != 1 or not identical(mul(rr[0], rr[0]), dot(syms('v', 2), syms('v', 2))) or \
                            not (rr[0].den == TT.P1 and len(rr[0].num.t) == 1 and list(rr[0].num.t.values())[0] > 0):
                        return [('viol', 'polar:radius', 'utils.cart_to_polar', 'the polar radius is not the length of the vector', None, clip(rr))]
                    return [('ok', 'polar coordinates and back')]
                return outcome(w, o, go) + [('called', sorted(w.ip.called))]
            collect(c, 'polar positive=%s' % positive, explore(judge))
    c.guard('polar conversion', polar)

    def crossp():
        w = session()
        where = 'utils.cross_2d'
        X = lambda a, b: w.vals(w.fn(U, 'cross_2d', a, b))[0]
        t = lambda e: w.ten((2,), e)
        a, b, d, k = syms('a', 2), syms('b', 2), syms('d', 2), S('k')
        ab = X(t(a), t(b))
        c.eq(w.shape(w.fn(U, 'cross_2d', t(a), t(b))) == (), 'cross product is a number', 'cross:shape', where, 'the cross product is not a single number')
        c.eq(identical(ab, neg(X(t(b), t(a)))), 'cross product antisymmetric', 'cross:anti', where, 'the cross product is not antisymmetric', None, ab)
        c.eq(identical(X(t(vadd(a, d)), t(b)), add(ab, X(t(d), t(b)))), 'cross product additive', 'cross:add', where, 'the cross product is not additive', None, ab)
        c.eq(identical(X(t(a), t(vadd(b, d))), add(ab, X(t(a), t(d)))), 'cross product additive in the second vector', 'cross:add2', where, 'the cross product is not additive', None, ab)
        c.eq(identical(X(t(vscale(k, a)), t(b)), mul(k, ab)) and identical(X(t(a), t(vscale(k, b))), mul(k, ab)), 'cross product homogeneous', 'cross:scale', where, 'the cross product is not homogeneous', None, ab)
        c.eq(identical(ab, cross(a, b)), 'cross product of the axes is one', 'cross:one', where, 'the cross product of the x and y axes is not one', cross(a, b), ab)
        w.done()
    c.guard('cross product', crossp)

    def ortho():
        w = session()
        where = 'utils.left_orthogonal'
        v = syms('v', 2)
        r = w.fn(U, 'left_orthogonal', w.ten((2,), v))
        x = w.vals(r)
        if c.eq(w.shape(r) == (2,), 'perpendicular shape', 'ortho:shape', where, 'the perpendicular has shape %r' % (w.shape(r),)):
            c.eq(identical(dot(x, x), dot(v, v)), 'perpendicular of equal length', 'ortho:len', where, 'the perpendicular has another length', dot(v, v), dot(x, x))
            c.eq(identical(dot(x, v), ZERO), 'perpendicular at right angles', 'ortho:dot', where, 'the perpendicular is not at right angles', ZERO, dot(x, v))
            c.eq(identical(cross(x, v), dot(v, v)), 'perpendicular on its side', 'ortho:side', where, 'the perpendicular is on the other side', dot(v, v), cross(x, v))
        w.done()
    c.guard('perpendicular', ortho)
    return c.finish()


# ------------------------------------------------------------ C34
def c34():
    c = Check('C34', 'frame recording', 'every path of four calls of Recorder.record with arbitrary times: frames saved, their '
              'numbers and the time condition of each')
    where = 'Recorder.record'
    N = 4

    def scene(path):
        w = W(c)
        ev = []

        def save(ip, st, args, kw):
            key = ('ev',)
            st.heap[('ev', 'c')] = TupV(st.heap.get(('ev', 'c'), TupV([])).items + (TupV([args[0], args[1] if len(args) > 1 else kw.get('filename')]),))
            return None
        w.ip.ext_over['pygame.image.save'] = save
        screen = Opaque(('screen',))
        args = [S('dt'), screen] + ([path] if path else [])
        rec = w.new('Recorder', *args)
        w.st.heap[('ev', 'c')] = TupV([])
        w.st.guard = True
        return w, rec, screen

    def judge_scene(path):
        w, rec, screen = scene(path)

        def judge(o):
            def go(st):
                out = []
                k = 0
                for i in range(N):
                    n0 = len(st.heap[('ev', 'c')].items)
                    w.call(rec, 'record', S('t', i), st=st)
                    evs = o.restrict(st.heap[('ev', 'c')]).items[n0:]
                    due = sub(S('t', i), mul(R.c(k + 1), S('dt')))          # t - k dt >= dt
                    known = known_lt0(o, due)
                    if len(evs) > 1:
                        return [('viol', 'twice', where, 'one call saves more than one frame', 1, len(evs))]
                    if evs:
                        if known is not False:
                            return [('viol', 'early', where, 'a frame is saved without an interval having passed since the last one',
                                     't - %d*dt >= dt' % k, clip([(c_, v) for c_, v in o.facts.truth.items()]))]
                        sf, name = o.restrict(evs[0].items[0]), o.restrict(evs[0].items[1])
                        if sf != screen:
                            return [('viol', 'screen', where, 'the image saved is not the recorder\'s screen', screen, sf)]
                        if not isinstance(name, str):
                            raise Imprecise('frame name of unknown value: %r' % (name,))
                        base = name.replace('\\', '/').rsplit('/', 1)
                        digits = ''.join(ch for ch in base[-1] if ch.isdigit())
                        if not digits or int(digits) != k:
                            return [('viol', 'number', where, 'frame %d is saved as %s' % (k, name), k, name)]
                        if len(base) != 2 or base[0] != (path or 'videos/frames'):
                            return [('viol', 'folder', where, 'a frame is saved outside the recorder\'s folder', path, name)]
                        k += 1
                    elif known is not True:
                        return [('viol', 'late', where, 'no frame is saved although an interval has passed since the last one',
                                 't - %d*dt < dt' % k, clip([(c_, v) for c_, v in o.facts.truth.items()]))]
                    out.append(('ok', 'call %d: %s' % (i, 'frame %d' % (k - 1) if evs else 'no frame')))
                return out
            return outcome(w, o, go) + [('called', sorted(w.ip.called))]
        collect(c, 'folder %s' % path, explore(judge))
    for path in (None, 'some/where'):
        c.guard('recording', judge_scene, path)
    return c.finish()


CHECKS = {'C31': c31, 'C34': c34}
