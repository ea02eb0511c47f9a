"""C06, C07: joints."""
from sa.phys import *
from sa.report import Check
from itertools import permutations

KINDS = ['Joint1', 'Joint2', 'FixedJoint', 'XConstraint', 'YConstraint', 'RotConstraint', 'TotalConstraint']


def make(w, kind, b1, b2, anchor=None):
    if kind == 'Joint1':
        return w.new('Joint', b1, None, anchor if anchor is not None else w.vec('anc', 2))
    if kind == 'Joint2':
        return w.new('Joint', b1, b2, anchor if anchor is not None else w.vec('anc', 2))
    if kind == 'FixedJoint':
        return w.new('FixedJoint', b1, b2)
    return w.new(kind, b1)


def two(w, shapes=('Circle', 'Circle')):
    return w.body(shapes[0], 'a'), w.body(shapes[1], 'b')


def move_bodies(w, bs, dt):
    for b in bs:
        w.call(b, 'move', dt)


def anchor_rows(r):
    return [[ONE, ZERO][0:0] + [neg(r[1]), ONE, ZERO], [r[0], ZERO, ONE]]


def expected_rows(w, kind, j, b1, b2):
    """Rows over (v1, v2) of the declared constraint."""
    pos = w.vals(w.attr(j, 'pos'))
    r1 = vsub(pos, w.vals(w.attr(b1, 'p'))[1:])
    z = [ZERO] * 3
    if kind in ('Joint1',):
        return [r + z for r in anchor_rows(r1)]
    if kind in ('Joint2', 'FixedJoint'):
        r2 = vsub(pos, w.vals(w.attr(b2, 'p'))[1:])
        rows = [a + [neg(x) for x in b] for a, b in zip(anchor_rows(r1), anchor_rows(r2))]
        if kind == 'FixedJoint':
            rows.append([ONE, ZERO, ZERO, NEG1, ZERO, ZERO])
        return rows
    e = [[ONE if i == k else ZERO for i in range(3)] + z for k in range(3)]
    return {'XConstraint': [e[1]], 'YConstraint': [e[2]], 'RotConstraint': [e[0]], 'TotalConstraint': e}[kind]


def found_rows(w, r):
    J = w.items(r)
    J1, J2 = J[0], J[1]
    sh = w.shape(J1)
    if len(sh) != 2 or sh[1] != 3:
        return None, 'first block has shape %r' % (sh,)
    a = w.vals(J1)
    rows = [a[3 * i:3 * i + 3] for i in range(sh[0])]
    if J2 is None:
        return [x + [ZERO] * 3 for x in rows], None
    sh2 = w.shape(J2)
    if sh2 != sh:
        return None, 'blocks have shapes %r and %r' % (sh, sh2)
    b = w.vals(J2)
    return [x + b[3 * i:3 * i + 3] for i, x in enumerate(rows)], None


def rows_match(exp, got):
    if len(exp) != len(got):
        return False
    for perm in permutations(range(len(got))):
        if all(path_eq(got[p], e) is None or path_eq([neg(x) for x in got[p]], e) is None for p, e in zip(perm, exp)):
            return True
    return False


def c06():
    c = Check('C06', 'joint Jacobians', 'value numbering of J() for every joint class, in the state after construction, '
              'after motion and after re-attachment, against the velocity of the declared constraint; row counts against num_constraints')
    for kind in KINDS:
        for phase in ('construct', 'move', 'bodies moved and re-attached'):
            for shapes in (('Circle', 'Circle'), ('Rect', 'Circle')):
                if phase != 'construct' and shapes[0] == 'Rect':
                    continue
                w = W(c)
                text = '%s, %s, %s' % (kind, phase, shapes[0])

                def run():
                    b1, b2 = two(w, shapes)
                    j = make(w, kind, b1, b2)
                    if phase != 'construct':
                        w.call(j, 'J')
                    if phase == 'move':
                        move_bodies(w, (b1, b2), S('dt'))
                        w.call(j, 'move', S('dt'))
                    elif phase != 'construct':
                        w.call(b1, 'set_p', w.vec('q1', 3))
                        w.call(b2, 'set_p', w.vec('q2', 3))
                        w.call(j, 'update_pos')
                    before = snapshot_all(w)
                    got, err = found_rows(w, w.call(j, 'J'))
                    where = '%s.J' % j.cls.name
                    if got is None:
                        c.viol(text + ':shape', where, '%s: %s' % (text, err))
                        return
                    exp = expected_rows(w, kind, j, b1, b2)
                    n = w.attr(j, 'num_constraints')
                    c.eq(isinstance(n, R) and n == R.c(len(got)), text + ': row count', kind + ':count', where,
                         '%s: %d rows but num_constraints is %r' % (text, len(got), n))
                    c.eq(rows_match(exp, got), text + ': rows', text + ':rows', where,
                         '%s: rows are not those of the declared constraint' % text, exp, got)
                c.guard(text, run)
                w.done()
    return c.finish()


def snapshot_all(w):
    return dict(w.st.heap)


def c07():
    c = Check('C07', 'joints follow bodies', 'transfer functions of construction, move() and update_pos() of every joint class, '
              'over symbolic poses, velocities, anchors and time steps')

    def eqv(text, key, where, msg, got, exp, given=True):
        d = path_eq(got, exp, given=given)
        c.eq(d is None, text, key, where, msg + (' (%s)' % d[0] if d else ''), d and d[1], d and d[2])

    for kind in KINDS:
        for start in ('construct', 'after a move'):
            for act in ('construct', 'move', 'move by tensor dt', 'update_pos'):
                if (act == 'construct') != (start == 'construct') and not (start == 'construct' and act != 'construct'):
                    if act == 'construct':
                        continue
                if start == 'after a move' and act == 'move by tensor dt':
                    continue
                w = W(c)
                text = '%s: %s (%s)' % (kind, act, start)

                def run():
                    b1, b2 = two(w)
                    j = make(w, kind, b1, b2)
                    if start != 'construct':
                        move_bodies(w, (b1, b2), S('h'))
                        w.call(j, 'move', S('h'))
                        w.setattr(b1, 'v', w.vec('a.V', 3))
                        w.setattr(b2, 'v', w.vec('b.V', 3))
                    old = arms(w, j)
                    th = ZERO
                    dt = S('dt')
                    if act.startswith('move'):
                        move_bodies(w, (b1, b2), dt)
                        th = mul(w.vals(w.attr(b1, 'v'))[0], dt)
                        rot_before = w.attr(j, 'rot1')
                        w.call(j, 'move', dt if act == 'move' else w.sc('dt'))
                    elif act == 'update_pos':
                        w.call(b1, 'set_p', w.vec('q1', 3))
                        w.call(b2, 'set_p', w.vec('q2', 3))
                        w.call(j, 'update_pos')
                    p1, p2 = w.vals(w.attr(b1, 'p')), w.vals(w.attr(b2, 'p'))
                    pos = w.vals(w.attr(j, 'pos'))
                    where = '%s' % j.cls.name
                    ws = lambda f: site(w, j, f)
                    new = arms(w, j)
                    if kind.startswith('Joint'):
                        if act == 'construct':
                            eqv(text + ': anchor', text + ':pos', ws('pos'), '%s: anchor is not at the position given' % text, pos, syms('anc', 2))
                            eqv(text + ': arm', text + ':pos1', ws('pos1'), '%s: offset from the first body wrong' % text, new[0], vsub(pos, p1[1:]))
                        else:
                            eqv(text + ': arm turned', text + ':pos1', ws('pos1'),
                                '%s: offset from the first body is not turned by its angular velocity times dt' % text, new[0], rot2(th, old[0]))
                            eqv(text + ': anchor', text + ':pos', ws('pos'), '%s: anchor is not attached to the first body' % text, pos, vadd(p1[1:], new[0]))
                    else:
                        eqv(text + ': anchor', text + ':pos', ws('pos'), '%s: anchor is not at the first body' % text, pos, p1[1:])
                        if new[0] is not None:
                            eqv(text + ': arm', text + ':pos1', ws('pos1'), '%s: offset from the first body not zero' % text, new[0], [ZERO, ZERO])
                    if kind in ('Joint2', 'FixedJoint'):
                        eqv(text + ': second arm', text + ':pos2', ws('pos2'),
                            '%s: offset from the second body is not recomputed from the anchor' % text, new[1], vsub(pos, p2[1:]))
                    c.eq(w.attr(j, 'body1') == b1 and (w.attr(j, 'body2') == (b2 if kind in ('Joint2', 'FixedJoint') else None)),
                         text + ': bodies kept', text + ':bodies', where, '%s: the joint refers to other bodies' % text)
                c.guard(text, run)
                w.done()
    return c.finish()


def arms(w, j):
    def g(f):
        v = w.ip.getattr(j, f, w.st, None, True)
        return None if v is None else w.vals(v)
    return g('pos1'), g('pos2')


CHECKS = {'C06': c06, 'C07': c07}
