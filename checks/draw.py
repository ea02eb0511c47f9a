"""C35 - drawings show the bodies and joints where they are."""
import sa.terms as TT
from sa.phys import *
from sa.report import Check, clip

SHAPES = ('line', 'circle', 'polygon', 'rect', 'lines', 'aaline', 'aalines', 'ellipse', 'arc')
ROUND = ('int', 'round', 'floor', 'trunc', 'det')


def off_by_pixels(r):
    """truncations in r shift it by a few pixels at most: none is scaled up by anything but sines and cosines"""
    for m in list(r.num.t) + list(r.den.t):
        tags = [TT.Atom.by_id[k].tag for k, e in m]
        if any(t in ROUND[:4] for t in tags) and (sum(e for k, e in m if TT.Atom.by_id[k].tag in ROUND[:4]) > 1 or any(t not in ROUND + ('cos', 'sin') for t in tags)):
            return False
    return True


def plain(v):
    """A number without truncation to pixels."""
    v = undet(v) if isinstance(v, (R, DD)) else v
    if isinstance(v, DD):
        return lift(plain, v)
    if not isinstance(v, R) or not off_by_pixels(v):
        return v
    return map_atoms(v, lambda a: plain(a.args[0]) if a.tag in ROUND and isinstance(a.args[0], (R, DD)) else None)


class Screen:
    def __init__(self, w):
        self.w, self.seen = w, []
        self.scr = Opaque(('screen',))
        for n in SHAPES:
            w.ip.ext_over['pygame.draw.' + n] = self.hook(n)

    def hook(self, name):
        def fn(ip, st, args, kw):
            r = Opaque(('region', len(self.seen)))
            self.seen.append((name, list(args), dict(kw), r, st))
            return r
        return fn

    def point(self, v, st):
        l = first_leaf(v)
        xs = self.w.vals(v, st) if isinstance(l, Ten) else [undet(first if False else x) for x in self.flat(v, st)]
        return [plain(x) for x in xs]

    def flat(self, v, st):
        out = []
        for x in self.w.items(v, st):
            out += self.w.vals(x, st) if isinstance(first_leaf(x), Ten) else [x]
        return out

    def shapes(self):
        """[(kind, points, radius)]"""
        out = []
        for name, a, kw, r, st in self.seen:
            if name == 'circle':
                rad = a[3] if len(a) > 3 else kw.get('radius')
                rad = self.w.vals(rad, st)[0] if isinstance(first_leaf(rad), Ten) else rad
                out.append((name, [self.point(a[2] if len(a) > 2 else kw['center'], st)], plain(rad)))
            elif name in ('line', 'aaline'):
                out.append(('line', [self.point(a[2] if len(a) > 2 else kw['start_pos'], st), self.point(a[3] if len(a) > 3 else kw['end_pos'], st)], None))
            elif name == 'polygon':
                out.append((name, [self.point(x, st) for x in self.w.items(a[2] if len(a) > 2 else kw['points'], st)], None))
            else:
                raise Imprecise('pygame.draw.%s not modelled' % name)
        return out


def pts_eq(a, b):
    return all(path_eq(x, y) is None for x, y in zip(a, b)) and len(a) == len(b)


def cyclic(a, b):
    if len(a) != len(b):
        return False
    n = len(a)
    for q in (b, b[::-1]):
        for k in range(n):
            if pts_eq(a, q[k:] + q[:k]):
                return True
    return False


def near(p, q):
    """within a pixel in both directions"""
    for x, y in zip(p, q):
        d = sub(x, y)
        if not (isinstance(d, R) and d.is_const() and abs(d.const()) <= 1):
            return False
    return True


def c35():
    c = Check('C35', 'drawings', 'every drawing call of bodies and joints recorded symbolically and compared, up to truncation to pixels, with the pose, the vertices and the '
              'scale')

    def sess():
        w = W(c)
        w.ip.hide_values = True
        return w

    def drawn(w, o, ppm, where, key, text, named=True):
        s = Screen(w)
        r = w.call(o, 'draw', s.scr, pixels_per_meter=ppm) if ppm is not None else w.call(o, 'draw', s.scr)
        regs = w.items(r)
        c.eq(all(q[1][0] is s.scr or q[1][0] == s.scr for q in s.seen if q[1]), text + ': on the screen given', key + ':screen', where, '%s is drawn on another surface' % text)
        c.eq(len(regs) == len(s.seen) and all(any(x == q[3] for x in regs) for q in s.seen), text + ': regions returned', key + ':regions', where,
             '%s: the regions returned are not those drawn' % text, len(s.seen), len(regs))
        return s.shapes()

    def check_body(w, b, kind, ppm, key, text):
        k = S('ppm') if ppm is not None else ONE
        where = kind + '.draw'
        sh = drawn(w, b, ppm, where, key, text)
        pos = [plain(mul(k, x)) for x in w.vals(w.attr(b, 'pos'))]
        if kind == 'Circle':
            rad = plain(mul(k, w.vals(w.attr(b, 'rad'))[0]))
            ok = any(n == 'circle' and pts_eq(p, [pos]) and same(r, rad) for n, p, r in sh)
            c.eq(ok, text + ': its circle', key + ':circle', where, '%s: no circle is drawn at its position with its radius' % text, [pos, rad], clip(sh))
            th = plain(w.vals(w.attr(b, 'rot'))[0])
            tip = vadd(pos, [mul(rad, mk_cos(th)), mul(rad, lift(mk_sin, th))])
            ok = any(n == 'line' and (pts_eq(p, [pos, tip]) or pts_eq(p, [tip, pos])) for n, p, r in sh)
            c.eq(ok, text + ': its orientation', key + ':radius', where, '%s: no radius is drawn at its angle' % text, [pos, tip], clip(sh))
        else:
            vs = [[plain(mul(k, add(a, b_))) for a, b_ in zip(w.vals(v), w.vals(w.attr(b, 'pos')))] for v in w.items(w.attr(b, 'verts'))]
            ok = any(n == 'polygon' and cyclic(p, vs) for n, p, r in sh)
            c.eq(ok, text + ': its outline', key + ':outline', where, '%s: the outline is not that of its vertices' % text, clip(vs), clip(sh))
            for n, p, r in sh:
                if n == 'line' and kind == 'Rect':
                    ok = any(pts_eq(p, [vs[i], vs[(i + 2) % 4]]) for i in range(4))
                    c.eq(ok, text + ': a diagonal', key + ':diagonal', where, '%s: a line is drawn that is no diagonal' % text, None, clip(p))
                if n == 'circle':
                    c.eq(pts_eq(p, [pos]), text + ': its centre', key + ':centre', where, '%s: its centre is drawn elsewhere' % text, pos, clip(p))

    def body(kind, phase, ppm):
        w = sess()
        b = w.body(kind, 'a')
        if phase == 'moved':
            w.call(b, 'move', S('dt'))
        elif phase == 'placed':
            w.call(b, 'set_p', w.vec('P', 3))
        elif phase == 'moved twice':
            w.call(b, 'move', S('dt'))
            w.call(b, 'draw', Opaque(('screen',)))
            w.call(b, 'move', S('dt2'))
        check_body(w, b, kind, ppm, '%s:%s' % (kind, phase), '%s, %s%s' % (kind, phase, '' if ppm is not None else ', default scale'))
        w.done()
    for kind in ('Circle', 'Rect', 'Hull'):
        for phase in ('created', 'moved', 'placed', 'moved twice'):
            for ppm in (S('ppm'), None):
                c.guard('%s %s' % (kind, phase), body, kind, phase, ppm)

    JOINTS = (('Joint', 2), ('Joint', 1), ('FixedJoint', 2), ('XConstraint', 1), ('YConstraint', 1), ('RotConstraint', 1), ('TotalConstraint', 1))

    def joint(jk, nb, phase, ppm):
        w = sess()
        bs = [w.body('Circle', 'a'), w.body('Rect', 'b')]
        j = w.new('Joint', bs[0], bs[1] if nb == 2 else None, w.vec('anc', 2)) if jk == 'Joint' else w.new(jk, *bs[:nb])
        if phase == 'moved':
            for b in bs:
                w.call(b, 'move', S('dt'))
            w.call(j, 'move', S('dt'))
        k = S('ppm') if ppm is not None else ONE
        text = '%s of %d bodies, %s%s' % (jk, nb, phase, '' if ppm is not None else ', default scale')
        where = jk + '.draw'
        key = '%s:%d:%s' % (jk, nb, phase)
        sh = drawn(w, j, ppm, where, key, text)
        at = lambda o: [plain(mul(k, x)) for x in w.vals(w.attr(o, 'pos'))]
        c.eq(len(sh) > 0, text + ': drawn', key + ':none', where, '%s: nothing is drawn' % text)
        if jk == 'FixedJoint':
            ends = [at(bs[0]), at(bs[1])]
            ok = all(n == 'line' and (pts_eq(p, ends) or pts_eq(p, ends[::-1])) for n, p, r in sh)
            c.eq(ok, text + ': between its bodies', key + ':ends', where, '%s: the line does not join its bodies' % text, clip(ends), clip(sh))
        else:
            pos = at(j) if jk == 'Joint' else at(bs[0])
            half = R.c(Fraction(1, 2))
            for n, p, r in sh:
                mid = p[0] if n == 'circle' else vscale(half, vadd(p[0], p[1]))
                ok = True
                for f, l in paths(*(mid + pos)):
                    ok = ok and near(l[:2], l[2:])
                c.eq(ok, text + ': a mark at its position', key + ':mark', where, '%s: a mark is drawn elsewhere' % text, clip(pos), clip(mid))
                if jk in ('XConstraint', 'YConstraint') and n == 'line':
                    d = vsub(p[1], p[0])
                    along = 0 if jk == 'YConstraint' else 1
                    c.eq(same(d[1 - along], ZERO) and not same(d[along], ZERO), text + ': direction of the mark', key + ':dir', where, '%s: the mark points along the wrong axis' % text, None, clip(d))
        w.done()
    for jk, nb in JOINTS:
        for phase in ('created', 'moved'):
            for ppm in (S('ppm'), None):
                c.guard('%s %s' % (jk, phase), joint, jk, nb, phase, ppm)

    def loop(ppm):
        w = sess()
        s = Screen(w)
        ev = []
        for n in SHAPES:
            old = w.ip.ext_over['pygame.draw.' + n]
            w.ip.ext_over['pygame.draw.' + n] = (lambda old: lambda ip, st, args, kw: (ev.append('shape'), old(ip, st, args, kw))[1])(old)
        w.ip.ext_over['pygame.event.get'] = lambda ip, st, args, kw: ip.new_list(st, [])
        w.ip.ext_over['pygame.image.save'] = lambda ip, st, args, kw: ev.append(('save', args[0])) or None
        n = [0]

        def solve(ip, st, args, kw):
            n[0] += 1
            return lib.mk(ip, st, (9,), [S('nv%d' % n[0], i) for i in range(9)], 'B')

        def mk(ip, st, args, kw):
            o = Obj(ip.new(), None)
            st.heap[(o.addr, 'solve_dynamics')] = PyFn(solve, 'solve_dynamics')
            return o
        bs = [w.body('Circle', 'a'), w.body('Rect', 'b'), w.body('Circle', 'e')]
        for i in range(3):
            for j in range(i):
                w.call(bs[i], 'add_no_contact', bs[j])
        js = [w.new('Joint', bs[0], bs[1], w.vec('anc', 2)), w.new('XConstraint', bs[0])]
        wd = w.new('World', w.lst(bs), w.lst(js), engine=PyFn(mk, 'engine'), dt=ONE)
        w.setattr(wd, 't', ZERO)
        rec = w.new('Recorder', R.c(Fraction(1, 2)), s.scr)
        kw = dict(pixels_per_meter=ppm) if ppm is not None else {}
        w.ip.call(w.get('lcp_physics.physics.world', 'run_world'), [wd], dict(run_time=ONE, screen=s.scr, recorder=rec, **kw), w.st)
        sh = s.shapes()
        where = 'run_world'
        text = 'frame of a recorded world%s' % ('' if ppm is not None else ', default scale')
        c.eq(ev and ev[-1] == ('save', s.scr) and ev.count(('save', s.scr)) == 1, text + ': saved once, after drawing', 'loop:save', where, '%s: the frame is not saved after drawing' % text, None, clip(ev))
        exp = []
        for o in bs + js:
            s2 = Screen(w)
            w.call(o, 'draw', s2.scr, pixels_per_meter=ppm if ppm is not None else ONE)
            exp += s2.shapes()
        left = list(sh)
        miss = 0
        for n_, p, r in exp:
            hit = [q for q in left if q[0] == n_ and pts_eq(q[1], p)]
            if hit:
                left.remove(hit[0])
            else:
                miss += 1
        c.eq(not miss and not left, text + ': every body and joint once, where it is, to scale', 'loop:all', where,
             '%s: %d drawings missing, %d too many' % (text, miss, len(left)))
        w.done()
    for ppm in (S('ppm'), None):
        c.guard('run_world', loop, ppm)
    return c.finish()


CHECKS = {'C35': c35}
